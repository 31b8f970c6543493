"""Updates over a list of ranges, each inside one element."""
from .p_tree import *
from .engine import isvar as isvar_
from .p_upd import k_dirty
from .models import place_of
from .terms import mentions
from . import judge as J


def tup_(*xs):
    return mk("rec", "tuple", None, tuple(xs))


def k_insert_by_path(T, cases=True):
    """at the end of an element: merged into it or behind it as a new one; elsewhere before what is behind the place"""
    def f(I, args, st, site, t, body):
        k, off = (st.facts.canon(x) for x in cursor_of(args[1]))
        x = args[2]
        IN, LN = T.arenas(st)
        cell = I.arena_get(st, LN, k)
        if cell is DEAD:
            I.panic_states.append(("an insertion at a removed element", site, st))
            return []
        e = st.facts.canon(fn(cell, "LeafNode", "elem"))
        out = []
        none = mk("rec", "SplittedLeaves", None, tuple(EMPTY for _ in FIELDS["SplittedLeaves"]))
        ie = FIELDS["LeafNode"].index("elem")
        for end, s in I.split_bool(st, eqi(off, rle_of(e))):
            if not end:
                if not I.must(s, [le(off, rle_of(e))], site, "an insertion behind the end of an element"):
                    continue
                s.ev("inside")
                out.append((tup_(mkcursor(k, off), none), s))
                continue
            for m, s2 in I.split_bool(s, mk("app", "can_merge", e, x)):
                if m:
                    s2.ev("put", k, x, k, LN)
                    T.setarenas(I, s2, IN, I.arena_set(s2, LN, k, setfld(cell, None, ie, "elem", mk("app", "cat", e, x))))
                    out.append((tup_(mkcursor(k, off), none), s2))
                else:
                    j = mk("app", "newleaf", LN, k, x)
                    s2.ev("put", k, x, j, LN)
                    I.assume(s2, eq(j, k), False)
                    T.setarenas(I, s2, IN, I.arena_set(s2, LN, j, setfld(cell, None, ie, "elem", x)))
                    out.append((tup_(mkcursor(j, num(0)), none), s2))
        return out
    return f


@part("C02", "C05", "C19", seconds=200)
def update_leaves_with_arg_in_ranges(prog, rep, sink):
    """every range is given to the function once with its argument, what is outside stays"""
    for name, at in (("one range", "a"), ("two ranges of one element", "aa"), ("ranges of two elements", "ab"), ("ranges of two elements in turn", "aba")):
        n = len(at)
        with OneOp(prog, rep, sink, Diff(), "update_leaves_with_arg_in_ranges", label="update_leaves_with_arg_in_ranges of " + name) as op:
            T, I = op.T, op.I
            I.contracts.update({"BTree::update_dirty_cache_map": k_dirty(T), "BTree::insert_by_path": k_insert_by_path(T)})
            ks = [sym(x) for x in sorted(set(at))]
            st = T.start(I)
            if len(ks) == 2:
                I.assume(st, eq(*ks), False)
            for k in ks:
                I.assume(st, mk("app", "alive", T.ld(k)))
            rows = []
            for m in range(n):
                k = sym(at[m])
                lo, hi, a = sym("lo%d" % m), sym("hi%d" % m), sym("arg%d" % m)
                I.assume(st, lt(lo, hi))
                I.assume(st, le(hi, rle_of(T.elem0(k))))
                rows.append((k, lo, hi, a))
            if n == 3:
                # enough to see the order: the start of one element, the other one, the rest of the first
                for x, y in ((rows[0][1], num(0)), (rows[0][2], rows[2][1]), (rows[2][2], rle_of(T.elem0(ks[0]))),
                             (rows[1][1], num(0)), (rows[1][2], rle_of(T.elem0(ks[1])))):
                    I.assume(st, eqi(x, y))
            args = mkseq([unit(tup_(mk("rec", "LeafIndex", None, (k,)), mk("rec", "std::ops::Range", None, (lo, hi)), a)) for k, lo, hi, a in rows])
            f = sym("f")
            for v, s in op.run([ref("self"), args, mkref(("O", f), ())], st):
                args_updated(op, s, v, mk("deref", f), ks, rows)


def bounds_of(op, s, e, rows):
    """[(the borders of the parts an element falls into, state)]"""
    work = [([], s)]
    for _, lo, hi, _ in rows:
        for x in (lo, hi):
            nxt = []
            for xs, y in work:
                for i, there, z in place_of(op.I, y, xs, x):
                    nxt.append((xs if there else xs[:i] + [x] + xs[i:], z))
            work = nxt
    out = []
    for xs, y in work:
        for i, there, z in place_of(op.I, y, xs, num(0)):
            b = xs if there else [num(0)] + xs
            for i, there, z2 in place_of(op.I, z, b, rle_of(e)):
                if feasible(z2):
                    out.append((b if there else b + [rle_of(e)], z2))
    return out


def base_of(x):
    n = 0
    while x.op == "app" and x.args[0] == "after":
        x, n = x.args[2], n + 1
    return x


def args_updated(op, s0, v, fv, ks, rows):
    T, I, sink = op.T, op.I, op.sink
    for k in ks:
        e = T.elem0(k)
        mine = [r for r in rows if r[0] is k]
        for b, s in bounds_of(op, s0, e, mine):
            one_element(op, s, v, fv, k, e, mine, b, [x for x in rows if x[0] is not k])
    s = s0
    C = s.facts.canon
    puts = [x for x in s.log if x[0] == "put"]
    got = C(v)
    told = {C(fld(g.args[0], None, 0, "0")) for g in segs(got) if g.op == "u"} if got.op == "seq" and all(g.op == "u" for g in segs(got)) else None
    for e in puts:
        if e[3] is not e[1]:
            op.judge_known("C05", "the handles of new elements are returned", s, None if told is None else C(e[3]) in told)
    dirty = [x for x in s.log if x[0] == "dirty"]
    if len(dirty) != 1:
        op.judge_known("C02", "summaries are brought up to date once", s, None if dirty else False)
        return
    for k in ks:
        was, now = T.elem0(k), I.arena_get(s, dirty[0][3], k)
        if now is DEAD:
            continue
        want = sub(rle_of(C(fn(now, "LeafNode", "elem"))), rle_of(was))
        d = I.arena_get(s, dirty[0][1], T.leafi(k))
        if d is DEAD or d.op == "nd":
            op.judge("C02", "the summaries above a changed element follow", s, want, num(0))
        else:
            op.judge("C02", "the summaries above a changed element follow", s, d, want)


def one_element(op, s, v, fv, k, e, rows, bounds, others):
    I, sink = op.I, op.sink
    C = s.facts.canon
    if any(x[0] == "inside" for x in s.log):
        sink.put("C19", "what is outside stays in its place: " + op.label, "open", "an insertion inside an element")
        return
    whole = mkseq(content(e))
    parts = [mkseq([sl(whole, a, b)]) for a, b in zip(bounds, bounds[1:])]
    want = [(i, r) for i, (a, b) in enumerate(zip(bounds, bounds[1:])) for r in rows
            if s.facts.implies(le(r[1], a)) and s.facts.implies(le(b, r[2]))]
    calls = [x for x in s.log if x[0] == "usercall" and x[1] is fv and len(x[2]) == 2]
    rule = "every part of a range is given to the function once with its argument: " + op.label
    left = list(want)
    value = {}
    sure = True
    for c in calls:
        base = base_of(C(c[2][0]))
        g = mkseq(content(base))
        res = [J.equal(I, s, g, p) for p in parts]
        at = [i for i, r in enumerate(res) if r is True]
        if not at:
            if any(mentions(g, C(x[0])) or mentions(g, op.T.elem0(x[0])) for x in others):
                continue
            # not exactly one of the parts of this element
            sure = sure and None not in res
            sink.put("C19", rule, "bad" if None not in res and clean_path(s) else "open", "called with %s, %s" % (g, c[2][1]))
            continue
        i = at[0]
        hit = [w for w in left if w[0] == i and C(c[2][1]) is C(w[1][3])]
        value[i] = mk("app", "after", fv, *c[2])
        if hit:
            left.remove(hit[0])
        else:
            sink.put("C19", rule, "bad" if clean_path(s) else "open", "called with %s, %s" % (g, c[2][1]))
    for i, r in left:
        sink.put("C19", rule, "bad" if sure and clean_path(s) else "open", "%s not called with %s, %s" % (op.label, parts[i], r[3]))
    if not left:
        sink.put("C19", rule, "ok")
    # what the element became, and what was put behind it
    dirty = [x for x in s.log if x[0] == "dirty"]
    puts = [x for x in s.log if x[0] == "put"]
    first = puts[0][4] if puts else op.T.arenas(s)[1]
    c0 = I.arena_get(s, first, k)
    if c0 is DEAD:
        op.judge_known("C19", "what is outside stays in its place", s, False)
        return
    line = [(k, C(fn(c0, "LeafNode", "elem")))]
    for x in puts:
        for n, (j, y) in enumerate(line):
            if C(j) is C(x[1]):
                if C(x[3]) is C(j):
                    line[n] = (j, mk("app", "cat", y, x[2]))
                else:
                    line.insert(n + 1, (C(x[3]), x[2]))
                break
    got = mkseq([g for _, y in line for g in content(y)])
    should = mkseq([g for i, p in enumerate(parts) for g in (content(value[i]) if i in value else segs(p))])
    r = J.equal(I, s, got, should)
    sink.put("C19", "what is outside stays in its place: " + op.label, "ok" if r is True else "bad" if r is False and not left and clean_path(s) else "open", "got %s, want %s" % (got, should))
