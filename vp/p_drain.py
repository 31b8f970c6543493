"""Draining a range: what the iterator yields, and the tree it leaves when dropped."""
from .p_tree import *
from .p_nav import some_path, mkidx
from .p_upd import k_cut, k_path, k_step, path_to, ranked, rank, successor
from .engine import Site, mkref, isvar as isvar_
from . import judge as J

DRAIN, STORE = "iter::Drain", "iter::TempStore"
DEPTHS = (2, 3, 4)
DROP = "<iter::Drain<'a, B> as std::ops::Drop>::drop"
NEXT = "<iter::Drain<'a, B> as std::iter::Iterator>::next"


NAMES = {"iter::Drain": {"tree", "current_path", "done", "end_cursor", "store"},
         "iter::TempStore": {"start_path", "end_path", "leaf_before_drain_range", "leaf_after_drain_range"},
         "QueryResult": {"cursor", "found"}}


def have(*tys):
    """the types are laid out as this module knows them"""
    return all(set(FIELDS.get(t, ())) == NAMES[t] for t in tys)


def record(ty, d):
    return mk("rec", ty, None, tuple(d[x] for x in FIELDS[ty]))


def mkpath(items):
    return mkseq([unit(mkidx(a, r)) for a, r in items])


def leaf_key(s, a):
    return s.facts.canon(key_of(s.facts.canon(a), "Leaf"))


def down_last(op, s, a, levels):
    """[key of the last leaf below child a, `levels` further down]"""
    T, I = op.T, op.I
    for _ in range(levels):
        if not I.assume(s, isvar_(a, "Internal")):
            return None
        k = s.facts.canon(key_of(s.facts.canon(a), "Internal"))
        ch = T.children(k)
        a = s.facts.canon(fn(el(ch, sub(length(ch), num(1))), "Child", "arena"))
    if not I.assume(s, isvar_(a, "Leaf")):
        return None
    return leaf_key(s, a)


def leaf_before(op, st, items):
    """[(key of the leaf before the end of the path or None, state)]"""
    T, I = op.T, op.I
    out = []
    work = [(len(items) - 1, st)]
    while work:
        j, s = work.pop()
        if j == 0:
            out.append((None, s))
            continue
        for some_, x in I.split_bool(s, lt(num(0), items[j][1])):
            if not feasible(x):
                continue
            if not some_:
                work.append((j - 1, x))
                continue
            p = key_of(items[j - 1][0], "Internal")
            a = fn(el(T.children(p), sub(items[j][1], num(1))), "Child", "arena")
            k = down_last(op, x, x.facts.canon(a), len(items) - 1 - j)
            if k is not None:
                out.append((k, x))
    return out


def gone_from(op, st, items, ends, dv, incl):
    """the elements from the start place on, before the end place, are no longer there"""
    T, I = op.T, op.I
    IN, LN = T.arenas(st)
    base, layers = I.arena_parts(LN)
    d = len(items) - 1
    b = mk("bv", "dr")
    stop = add(ends[d][1], num(1)) if incl else ends[d][1]

    def layer(n, lo, hi):
        key = key_of(fn(el(T.children(n), b), "Child", "arena"), "Leaf")
        return mk("fa", b, lo, hi, (), key, DEAD)
    n, m = key_of(items[d - 1][0], "Internal"), key_of(ends[d - 1][0], "Internal")
    if dv is None or dv == d:
        new = [layer(n, items[d][1], stop)]
    else:
        new = [layer(n, items[d][1], length(T.children(n))), layer(m, num(0), stop)]
    T.setarenas(I, st, IN, mk("arena", base, tuple(layers) + tuple(new)))


def some_range(op, st, d, dv, incl):
    """two paths of d entries that part at level dv (None: never)"""
    T, I = op.T, op.I
    items = some_path(op, st, d, "Leaf")
    ends = list(items[:dv]) if dv is not None else list(items)
    if dv is not None:
        n = key_of(items[dv - 1][0], "Internal")
        for i in range(dv, d):
            q = sym("q%d" % i)
            if not (I.assume(st, le(num(0), q)) and I.assume(st, lt(q, length(T.children(n))))):
                return None
            if i == dv and not I.assume(st, lt(items[i][1], q)):
                return None
            a = fn(el(T.children(n), q), "Child", "arena")
            kind = "Leaf" if i == d - 1 else "Internal"
            if not I.assume(st, isvar_(a, kind)):
                return None
            n = key_of(st.facts.canon(a), kind)
            ends.append((st.facts.canon(a), q))
    if incl:
        # the last element of the tree
        for i in range(1, d):
            ch = T.children(key_of(ends[i - 1][0], "Internal"))
            if not I.assume(st, eqi(ends[i][1], sub(length(ch), num(1)))):
                return None
    return items, ends


def lists_left(op, st, items, ends, dv, incl):
    """[({node: child list that should be left}, [nodes emptied], state)]"""
    T, I = op.T, op.I
    d = len(items) - 1
    stop = 1 if incl else 0
    K = lambda it, i: key_of(it[i][0], "Internal")

    def empty(s, seq):
        return I.split_bool(s, eqi(length(seq), num(0)))
    todo = [(None, None, {}, st)]        # start side emptied, end side emptied, lists
    top = d if dv is None else dv
    for i in range(d - 1, top - 1, -1):
        nxt = []
        for es, ee, L, s in todo:
            cs, ce = T.children(K(items, i)), T.children(K(ends, i))
            r, q = items[i + 1][1], ends[i + 1][1]
            if es is None:
                a = mkseq([sl(cs, num(0), r)])
                b = mkseq([sl(ce, add(q, num(stop)), length(ce))])
            else:
                a = mkseq([sl(cs, num(0), r if es else add(r, num(1)))])
                b = mkseq([sl(ce, add(q, num(1)) if ee else q, length(ce))])
            for xa, s1 in empty(s, a):
                for xb, s2 in empty(s1, b):
                    if feasible(s2):
                        nxt.append((xa, xb, dict(L, **{}) | {K(items, i): a, K(ends, i): b}, s2))
        todo = nxt
    out = []
    for es, ee, L, s in todo:
        i = top - 1
        c = T.children(K(items, i))
        r, q = items[i + 1][1], ends[i + 1][1]
        if es is None:
            lo, hi = r, add(q, num(stop))
        else:
            lo = r if es else add(r, num(1))
            hi = add(q, num(1)) if ee else q
        L = dict(L)
        L[K(items, i)] = mkseq([sl(c, num(0), lo), sl(c, hi, length(c))])
        work = [(i, L, s)]
        while work:
            i, L, x = work.pop()
            if i == 0:
                out.append((L, x))
                continue
            for e, y in empty(x, L[K(items, i)]):
                if not feasible(y):
                    continue
                if not e:
                    out.append((L, y))
                    continue
                c = T.children(K(items, i - 1))
                r = items[i][1]
                work.append((i - 1, dict(L) | {K(items, i - 1): mkseq([sl(c, num(0), r), sl(c, add(r, num(1)), length(c))])}, y))
    return out


def stubs(op):
    T = op.T

    def event(name, arg):
        def f(I, args, st, site, t, body):
            st.ev(name, None if arg is None else st.facts.canon(args[arg]))
            return [(UNIT, st)]
        return f

    def layer(I, args, st, site, t, body):
        st.ev("repair", st.facts.canon(args[1]))
        return [(mk("app", "lack", num(len(st.log))), st)]

    def purge(I, args, st, site, t, body):
        out = []
        for vn, _, s in I.split_variant(st, st.facts.canon(args[1]), KINDS):
            k = s.facts.canon(key_of(s.facts.canon(args[1]), vn))
            IN, LN = T.arenas(s)
            if vn == "Leaf":
                T.setarenas(I, s, IN, I.arena_set(s, LN, k, DEAD))
            else:
                T.setarenas(I, s, I.arena_set(s, IN, k, DEAD), LN)
            out.append((UNIT, s))
        return out
    return {"iter::seal": event("repair", 1), "iter::handle_lack_on_path_to_leaf": event("repair", 1), "BTree::try_reduce_levels": event("reduce", None),
            "BTree::handle_lack_single_layer": layer, "BTree::purge": purge}


def drop_case(prog, rep, sink, d, dv, incl):
    name = "drop of a drain over paths of %d, %s, to %s" % (d, "one element" if dv is None else "parting at %d" % dv, "the end" if incl else "an element")
    with OneOp(prog, rep, sink, Free(), DROP, label=name, unroll=6) as op:
        T, I = op.T, op.I
        I.contracts.update(stubs(op))
        st0 = T.start(I)
        rg = some_range(op, st0, d, dv, incl)
        if rg is None or not have(DRAIN, STORE):
            return
        items, ends = rg
        first = leaf_key(st0, items[-1][0])
        after = None if incl else leaf_key(st0, ends[-1][0])

        def rest(I, args, st, site, t, body):
            if not any(e[0] == "drained" for e in st.log):
                st.ev("drained")
                gone_from(op, st, items, ends, dv, incl)
            return [(NONE, st)]
        I.contracts[NEXT] = rest
        for before, st in leaf_before(op, st0, items):
            T.leaves = [k for k in (before, after) if k is not None]
            box = ("O", sym("store"))
            I.write(st, box, (), record(STORE, {
                "start_path": mkpath(items), "end_path": mkpath(ends),
                "leaf_before_drain_range": NONE if before is None else some(T.leafi(before)),
                "leaf_after_drain_range": NONE if after is None else some(T.leafi(after))}))
            me = ("O", sym("drain"))
            I.write(st, me, (), record(DRAIN, {
                "tree": mkref(*T.home), "current_path": mkpath(items), "done": FALSE,
                "end_cursor": NONE if incl else some(mkcursor(after, num(0))),
                "store": some(mk("rec", "Box", None, (mkref(box, ()),)))}))
            for v, s in op.run([mkref(me, ())], st):
                dropped(op, s, items, ends, dv, incl, before, after)


def dropped(op, s0, items, ends, dv, incl, before, after):
    T, I, sink = op.T, op.I, op.sink
    for L, s in lists_left(op, s0.copy(), items, ends, dv, incl):
        if not feasible(s):
            continue

        def body(w, out):
            C = w.C
            for i in range(len(items) - 1):
                for it in (items, ends):
                    k = C(key_of(it[i][0], "Internal"))
                    want = L.get(key_of(it[i][0], "Internal"))
                    v = w.node(k)
                    if v is DEAD:
                        continue
                    got = C(F(v, "Node", "children"))
                    if want is None:
                        want = T.children(k)
                    if k is not C(T.R) and w.s.facts.value(eqi(length(want), num(0))) is True:
                        continue
                    for pid in ("C12", "C03"):
                        out.judge(pid, "exactly the drained part leaves each node", J.equal(I, w.s, got, want), "node %s: left %s, want %s" % (k, got, want))
            w.links(out)
            w.occupancy(out)
            w.summaries(out)
        by_cases(T, I, s, sink, op.label, body)
        reps = [e for e in s.log if e[0] == "repair"]
        if before is not None and T.P.find("iter::seal") is not None:
            op.judge_known("C16", "the path beside the gap is repaired", s, any(e[1] is not None and leaf_or_node(s, e[1]) is s.facts.canon(before) for e in reps))


def leaf_or_node(s, a):
    v = s.facts.variant(a)
    return None if v is None else s.facts.canon(key_of(s.facts.canon(a), v))


@part("C12", *HEAP, seconds=300)
def drain_drop(prog, rep, sink):
    """dropping the iterator leaves exactly what is outside the range"""
    for d in DEPTHS:
        for incl in (False, True):
            for dv in [None] + list(range(1, d)):
                drop_case(prog, rep, sink, d, dv, incl)


# ------------------------------------------------------------------ what the iterator yields
def ends_at(op, rule, s, got, end):
    """the leaf an optional cursor names"""
    vn = s.facts.variant(s.facts.canon(got))
    if vn == "Some" and end is not None:
        op.judge("C12", rule, s, cursor_of(s.facts.canon(fld(got, "Some", 0, "0")))[0], end)
    else:
        op.judge_known("C12", rule, s, None if vn is None else (vn == "None") == (end is None))


def drain_record(op, st, k, done, end):
    """a drain whose next element is leaf k"""
    T = op.T
    return record(DRAIN, {"tree": mkref(*T.home), "current_path": path_to(T, k, T.LN0), "done": done,
                          "end_cursor": NONE if end is None else some(mkcursor(end, num(0))), "store": sym("store")})


@part("C12", seconds=60)
def drain_next(prog, rep, sink):
    """one element after the other leaves the tree and is handed out, until the end leaf"""
    for ended in (False, True):
        for bounded in (False, True):
            if not have(DRAIN) or prog.find(NEXT) is None:
                return
            with OneOp(prog, rep, sink, Free(), NEXT, label="next of a drain%s%s" % (" to an element" if bounded else "", ", finished" if ended else "")) as op:
                T, I = op.T, op.I
                I.contracts["BTree::next_sibling"] = k_step(T)
                k, e = sym("k"), sym("e")
                st = T.start(I, leaf=k)
                if bounded:
                    I.assume(st, mk("app", "alive", T.ld(e)))
                me = ("O", sym("drain"))
                rec0 = drain_record(op, st, k, TRUE if ended else FALSE, e if bounded else None)
                I.write(st, me, (), rec0)
                for v, s0 in op.run([mkref(me, ())], st):
                    for here, s in I.split_bool(s0, eq(k, e)) if bounded and not ended else [(ended, s0)]:
                        if feasible(s):
                            yielded(op, s, v, me, k, e if bounded else None, here)


def yielded(op, s, v, me, k, end, over):
    T, I = op.T, op.I
    C = s.facts.canon
    IN, LN = T.arenas(s)
    cell = I.arena_get(s, LN, k)
    now = I.read(s, me, ())
    if over:
        op.judge_known("C12", "nothing is yielded from the end on", s, s.facts.variant(v) == "None")
        op.judge_known("C12", "what is not in the range stays", s, cell is not DEAD and not [l for l in I.arena_parts(LN)[1]])
        return
    op.judge("C12", "the element at the place is yielded", s, v, some(T.elem0(k)))
    op.judge_known("C12", "the yielded element leaves the tree", s, cell is DEAD)
    for l in I.arena_parts(LN)[1]:
        op.judge_known("C12", "only the yielded element leaves the tree", s, l.op == "w" and C(l.args[0]) is C(k) or None)
    done = C(F(now, DRAIN, "done"))
    ends_at(op, "the end of the range stays", s, F(now, DRAIN, "end_cursor"), end)
    for j, x in successor(T, I, s.copy(), C(k), Site("next", 0, ("src/iter.rs", 0), 0)):
        if not feasible(x):
            continue
        if j is None:
            op.judge("C12", "nothing comes after the last element", x, done, TRUE)
            continue
        gs = segs(x.facts.canon(F(now, DRAIN, "current_path")))
        op.judge("C12", "the next element is yielded next", x, done, FALSE)
        if gs and gs[-1].op == "u":
            op.judge("C12", "the next element is yielded next", x, F(gs[-1].args[0], "Idx", "arena"), T.leafi(j))
        else:
            op.judge_known("C12", "the next element is yielded next", x, None)


# ------------------------------------------------------------------ the range a drain covers
def predecessor(T, I, st, k):
    """[(the element before leaf k or None, state)], cut elements taken into account"""
    cuts = [e for e in st.log if e[0] == "cut"]
    for c in cuts:
        if st.facts.canon(c[3]) is k:
            # the last piece cut from the same element that starts before
            return [(back_piece(st, cuts, c), st)]
    out = []
    r = mk("app", "prev", T.LN0, k)
    j = mk("app", "prevleaf", T.LN0, k)
    for vn in ("None", "Some"):
        s = st.copy()
        if not I.assume(s, isvar_(r, vn)):
            continue
        if vn == "None":
            out.append((None, s))
            continue
        if not (I.assume(s, mk("app", "alive", T.ld(j))) and I.assume(s, eqi(rank(j), sub(rank(k), num(1)))) and all(I.assume(s, eq(j, c[3]), False) for c in cuts)):
            continue
        todo = [s]
        for c in cuts:
            todo = [z for y in todo for _, z in I.split_bool(y, eq(y.facts.canon(j), y.facts.canon(c[1])))]
        for y in todo:
            ps = pieces(y, y.facts.canon(j))
            out.append((ps[-1][0], y))
    return out


def pieces(s, k):
    """[(leaf, where it starts in element k)] of the parts an element was cut into"""
    out = [(s.facts.canon(k), num(0))]
    for e in s.log:
        if e[0] != "cut":
            continue
        for i, (x, lo) in enumerate(out):
            if s.facts.canon(e[1]) is x:
                out.insert(i + 1, (s.facts.canon(e[3]), s.facts.canon(add(lo, e[2]))))
                break
    return out


def back_piece(s, cuts, c):
    top = s.facts.canon(c[1])
    up = True
    while up:
        up = False
        for d in cuts:
            if s.facts.canon(d[3]) is top:
                top, up = s.facts.canon(d[1]), True
    ps = [x for x, _ in pieces(s, top)]
    return ps[ps.index(s.facts.canon(c[3])) - 1]


def k_level(T, fwd):
    """the element next to one, as an arena index"""
    def f(I, args, st, site, t, body):
        out = []
        a = st.facts.canon(args[1])
        if st.facts.variant(a) != "Leaf":
            raise Limit("neighbour of %s" % a)
        k = st.facts.canon(key_of(a, "Leaf"))
        for j, s in successor(T, I, st, k, site) if fwd else predecessor(T, I, st, k):
            out.append((NONE if j is None else some(T.leafi(j)), s))
        return out
    return f


def k_last(T):
    """the last element: the one known to have none after it, or its last piece"""
    def f(I, args, st, site, t, body):
        ends = [b.args[0].args[2] for b, v in st.facts.lits.items() if v and b.op == "isvar" and b.args[1] == "None" and b.args[0].op == "app" and b.args[0].args[0] == "next"]
        ends = {st.facts.canon(k) for k in ends}
        if len(ends) != 1:
            raise Limit("last element")
        return [(some(mk("rec", "LeafIndex", None, (pieces(st, ends.pop())[-1][0],))), st)]
    return f


def place_after(op, s, k, off, site):
    """[(the leaf that starts at this place or after, False when no leaf starts inside an element, state)]"""
    T, I = op.T, op.I
    e = T.elem0(k)
    out = []
    for a0, x in I.split_bool(s.copy(), eqi(off, num(0))):
        if not feasible(x):
            continue
        if a0:
            out.append((x.facts.canon(k), x))
            continue
        for an, y in I.split_bool(x, eqi(off, rle_of(e))):
            if not feasible(y):
                continue
            if an:
                r = mk("app", "next", T.LN0, y.facts.canon(k))
                vn = y.facts.variant(r)
                if vn == "None":
                    out.append((None, y))
                elif vn == "Some":
                    out.append((y.facts.canon(mk("app", "nextleaf", T.LN0, k)), y))
                continue
            hit = False
            for x_, lo in pieces(y, k):
                if y.facts.value(eqi(lo, off)) is True:
                    hit = x_
            out.append((hit, y))
    return out


@part("C12", seconds=120)
def drain_new(prog, rep, sink):
    """a drain covers what lies between the two places"""
    if not have(DRAIN, STORE, "QueryResult") or prog.find("iter::Drain::new") is None:
        return
    for same in (True, False):
        with OneOp(prog, rep, sink, Free(), "iter::Drain::new", label="a drain %s" % ("inside one element" if same else "of several elements")) as op:
            T, I = op.T, op.I
            I.contracts.update({"BTree::split_leaf_if_needed": k_cut(T), "BTree::get_path": k_path(T),
                                "BTree::next_same_level_in_node": k_level(T, True), "BTree::prev_same_level_in_node": k_level(T, False),
                                "BTree::last_leaf": k_last(T)})
            a, i, j = sym("a"), sym("i"), sym("j")
            b = a if same else sym("b")
            ranked(T, I, a, b)
            st = T.start(I, leaf=a)
            if not same:
                I.assume(st, mk("app", "alive", T.ld(b)))
                I.assume(st, lt(rank(a), rank(b)))
                I.assume(st, eq(a, b), False)
            I.assume(st, le(i, rle_of(T.elem0(a))))
            I.assume(st, le(j, rle_of(T.elem0(b))))
            I.assume(st, lt(num(0), rle_of(T.elem0(a))))
            I.assume(st, lt(num(0), rle_of(T.elem0(b))))
            if same:
                I.assume(st, le(i, j))

            def place(k, off):
                return some(record("QueryResult", {"cursor": mkcursor(k, off), "found": sym("found")}))
            for v, s in op.run([mkref(*T.home), place(a, i), place(b, j)], st):
                for first, s1 in place_after(op, s, a, i, None):
                    for last, s2 in place_after(op, s1, b, j, None):
                        covered(op, s2, v, first, last)
    for hole in ("start", "end"):
        with OneOp(prog, rep, sink, Free(), "iter::Drain::new", label="a drain without %s" % hole) as op:
            T, I = op.T, op.I
            st = T.start(I)
            full = some(record("QueryResult", {"cursor": mkcursor(sym("a"), sym("i")), "found": sym("found")}))
            for v, s in op.run([mkref(*T.home)] + ([NONE, full] if hole == "start" else [full, NONE]), st):
                nothing(op, s, v)


def nothing(op, s, v):
    T, I = op.T, op.I
    op.judge("C12", "an empty range yields nothing", s, F(v, DRAIN, "done"), TRUE)
    op.judge("C12", "an empty range yields nothing", s, F(v, DRAIN, "store"), NONE)


def covered(op, s, v, first, last):
    T, I, sink = op.T, op.I, op.sink
    C = s.facts.canon
    if first is False or last is False:
        op.judge_known("C12", "the range starts and ends where it should", s, False)
        return
    if first is None:
        if C(F(v, DRAIN, "done")) is TRUE:
            nothing(op, s, v)
        else:
            op.judge_known("C12", "an empty range yields nothing", s, None)
        return
    _, LN = T.arenas(s)
    rule = "the range starts and ends where it should"
    if s.facts.value(F(v, DRAIN, "done")) is True:
        # nothing to yield is right when the range is empty
        op.judge_known("C12", rule, s, None if last is None else C(last) is C(first))
        return
    op.judge("C12", rule, s, F(v, DRAIN, "done"), FALSE)
    op.judge("C12", rule, s, F(v, DRAIN, "current_path"), path_to(T, first, LN))
    ends_at(op, rule, s, F(v, DRAIN, "end_cursor"), last)
    b = C(F(v, DRAIN, "store"))
    if s.facts.variant(b) != "Some":
        op.judge_known("C12", "dropping it closes the gap", s, False)
        return
    box = C(fld(b, "Some", 0, "0"))
    if box.op == "rec" and box.args[0] == "Box" and C(box.args[2][0]).op == "ref":
        box = I.deref(s, C(box.args[2][0]))
    elif box.op == "ref":
        box = I.deref(s, box)
    op.judge("C12", rule, s, F(box, STORE, "start_path"), path_to(T, first, LN))
    if last is not None:
        cell = I.arena_get(s, LN, C(last))
        if cell is not DEAD and s.facts.value(eqi(rle_of(C(fn(cell, "LeafNode", "elem"))), num(0))) is True:
            return      # elements have a length
        op.judge("C12", rule, s, F(box, STORE, "end_path"), path_to(T, last, LN))
        op.judge("C12", "the leaf after the range is known", s, F(box, STORE, "leaf_after_drain_range"), some(T.leafi(last)))
    else:
        op.judge("C12", "the leaf after the range is known", s, F(box, STORE, "leaf_after_drain_range"), NONE)
        gs = segs(C(F(box, STORE, "end_path")))
        if gs and gs[-1].op == "u":
            for k, y in [(key_of(C(F(gs[-1].args[0], "Idx", "arena")), "Leaf"), s)]:
                for j, z in successor(T, I, y.copy(), C(k), None):
                    if feasible(z):
                        op.judge_known("C12", rule, z, j is None)
    for p, x in predecessor(T, I, s.copy(), C(first)):
        if feasible(x):
            op.judge("C12", "the leaf before the range is known", x, F(box, STORE, "leaf_before_drain_range"), NONE if p is None else some(T.leafi(p)))


@part("C12", seconds=60)
def drain_entry(prog, rep, sink):
    """draining is asked for by two places, or by two searches for them"""
    def asked(I, args, st, site, t, body):
        st.ev("drain", *(st.facts.canon(x) for x in args))
        return [(mk("app", "drain", num(len(st.log))), st)]

    def found(I, args, st, site, t, body):
        a = st.facts.canon(args[1])
        return [(mk("app", "found", I.deref(st, a) if a.op == "ref" else a), st)]
    for name in ("drain", "drain_by_query"):
        if prog.find("iter::Drain::new") is None or prog.find("BTree::query") is None:
            return
        with OneOp(prog, rep, sink, Free(), name) as op:
            T, I = op.T, op.I
            I.contracts.update({"iter::Drain::new": asked, "BTree::query": found})
            st = T.start(I)
            lo, hi = sym("lo"), sym("hi")
            for v, s in op.run([mkref(*T.home), mk("rec", "std::ops::Range", None, (lo, hi))], st):
                es = [e for e in s.log if e[0] == "drain"]
                if len(es) != 1:
                    op.judge_known("C12", "the range asked for is drained", s, None)
                    continue
                want = [some(lo), some(hi)] if name == "drain" else [mk("app", "found", lo), mk("app", "found", hi)]
                for got, w in zip(es[0][2:], want):
                    op.judge("C12", "the range asked for is drained", s, got, w)
                op.judge("C12", "the range asked for is drained", s, v, mk("app", "drain", num(s.log.index(es[0]) + 1)))


@part("C05", "C12", seconds=60)
def purge(prog, rep, sink):
    """everything below a removed node is removed with it"""
    #  what hangs below the node: L leaf, (..) inner node
    for shape in ("L", "()", "(L)", "(LL)", "((L)L)", "((LL)(L))"):
        with OneOp(prog, rep, sink, Free(), "purge", label="purge of " + shape.replace("L", "leaf ").strip(), unroll=12) as op:
            T, I = op.T, op.I
            I.recur = 4
            st = T.start(I)
            gone = {"Leaf": [], "Internal": []}
            seen = []

            def build(i):
                """(arena, next place in the shape)"""
                kind = "Leaf" if shape[i] == "L" else "Internal"
                k = sym("%s%d" % (kind[0].lower(), i))
                for o in gone[kind]:
                    I.assume(st, eq(k, o), False)
                gone[kind].append(k)
                I.assume(st, mk("app", "alive", (T.ld if kind == "Leaf" else T.nd)(k)))
                if kind == "Leaf":
                    return T.leafi(k), i + 1
                I.assume(st, eq(k, T.R), False)
                i += 1
                below = []
                while shape[i] != ")":
                    a, i = build(i)
                    below.append(a)
                ch = T.children(k)
                I.assume(st, eqi(length(ch), num(len(below))))
                for n, a in enumerate(below):
                    I.assume(st, eq(fn(el(ch, num(n)), "Child", "arena"), a))
                return T.inode(k), i + 1
            top, _ = build(0)
            # elements and inner nodes are numbered apart: an inner node elsewhere may have the number of an element
            for l in gone["Leaf"]:
                for o in gone["Internal"]:
                    I.assume(st, eq(l, o), False)
                I.assume(st, mk("app", "alive", T.nd(l)))
                I.assume(st, eqi(length(T.children(l)), num(0)))
            for v, s in op.run([ref("self"), top], st):
                for kind, arena in zip(("Internal", "Leaf"), T.arenas(s)):
                    for k in gone[kind]:
                        op.judge_known("C05", "what hangs below a removed node is removed too", s, I.arena_get(s, arena, k) is DEAD)
                    for l in I.arena_parts(arena)[1]:
                        hit = l.op == "w" and any(s.facts.canon(l.args[0]) is s.facts.canon(k) for k in gone[kind])
                        wrong = kind == "Internal" and l.op == "w" and any(s.facts.canon(l.args[0]) is s.facts.canon(k) for k in gone["Leaf"])
                        op.judge_known("C05", "nothing else is removed", s, True if hit else False if wrong else None)
