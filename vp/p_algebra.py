"""Summary algebra of the provided trees, and positional / ordered search over child summaries."""
from .spec import *

ROPE = "generic_impl::rope::RopeTrait"
ORD = "generic_impl::ord::OrdTrait"
GB = "generic_impl::gap_buffer::GapBuffer"
LF = "generic_impl::len_finder::LengthFinder"
UNM = "generic_impl::ord::Unmergeable"
CHILD = "Child"
FR = "FindResult"


def call(S, I, b, args, st, label):
    return S.run(I, b, args, st, label)


def rope_summaries(prog, rep):
    S = Spec(prog, rep)

    def one(name, args, st, label=None):
        b = S.method(ROPE, name, "BTreeTrait")
        if b is None:
            return None, []
        I = S.interp()
        return I, S.run(I, b, args, st, label or "Rope summary " + name)

    with guarded(rep, "Rope::calc_cache_internal"):
        st = State()
        I, outs = one("calc_cache_internal", [ref("cache"), ref("children")], st)
        b = mk("bv", 0)
        seq = val("children")
        want = TM.sumseq(mkseq([mk("gen", b, num(0), length(seq), F(el(seq, b), CHILD, "cache"))]))
        for v, s in outs:
            new = I.deref(s, ref("cache"))
            S.same(I, s, new, want, "subtree length is the sum of its children: Rope", "summary")
            # the reported difference leads from the old to the new summary
            ap = S.method(ROPE, "apply_cache_diff", "BTreeTrait")
            if ap is None:
                continue
            s2 = s.copy()
            r1, r2 = ("O", sym("old")), ("O", sym("diff"))
            s2.store[r1] = val("cache")
            s2.store[r2] = v
            for _, s3 in S.run(I, ap, [mkref(r1, ()), mkref(r2, ())], s2, "Rope summary apply_cache_diff"):
                S.same(I, s3, I.deref(s3, mkref(r1, ())), want, "a summary difference leads from the old to the new summary: Rope calc", "summary after applying the difference")
    with guarded(rep, "Rope diff laws"):
        ap = S.method(ROPE, "apply_cache_diff", "BTreeTrait")
        I = S.interp()
        if ap is not None:
            # apply(apply(c, d1), d2) == apply(c, merge(d1, d2))
            lhs = []
            st = State()
            for _, s in S.run(I, ap, [ref("c"), ref("d1")], st, "Rope summary apply_cache_diff"):
                for _, s2 in S.run(I, ap, [ref("c"), ref("d2")], s, "Rope summary apply_cache_diff"):
                    lhs.append((I.deref(s2, ref("c")), s2))
            md = S.method(ROPE, "merge_cache_diff", "BTreeTrait")
            if md is not None:
                for l, s in lhs:
                    s1 = State()
                    for _, s2 in S.run(I, md, [ref("d1"), ref("d2")], s1, "Rope summary merge_cache_diff"):
                        for _, s3 in S.run(I, ap, [ref("c"), ref("d1")], s2, "Rope summary apply_cache_diff"):
                            S.same(I, s3, I.deref(s3, ref("c")), l, "merged differences act like one after the other: Rope", "summary")
            # apply(default, new_cache_to_diff(c)) == c
            nd = S.method(ROPE, "new_cache_to_diff", "BTreeTrait")
            if nd is not None:
                for v, s in S.run(I, nd, [ref("c")], State(), "Rope summary new_cache_to_diff"):
                    s.store[("O", sym("zero"))] = num(0)
                    s.store[("O", sym("dd"))] = v
                    for _, s2 in S.run(I, ap, [ref("zero"), ref("dd")], s, "Rope summary apply_cache_diff"):
                        S.same(I, s2, I.deref(s2, ref("zero")), val("c"), "a new summary is its difference from nothing: Rope", "summary")
            sb = S.method(ROPE, "sub_cache", "BTreeTrait")
            if sb is not None:
                for v, s in S.run(I, sb, [ref("l"), ref("r")], State(), "Rope summary sub_cache"):
                    s.store[("O", sym("dd"))] = v
                    for _, s2 in S.run(I, ap, [ref("r"), ref("dd")], s, "Rope summary apply_cache_diff"):
                        S.same(I, s2, I.deref(s2, ref("r")), val("l"), "difference of two summaries leads from one to the other: Rope", "summary")
    with guarded(rep, "Rope element summary"):
        from .p_gap import Gap
        g = Gap(prog, rep)
        if g.setup():
            try:
                b = S.method(ROPE, "get_elem_cache", "BTreeTrait")
                if b is not None:
                    I = S.interp()
                    st = State()
                    t = g.assume_inv(I, st, ref("elem"))
                    for v, s in S.run(I, b, [ref("elem")], st, "Rope summary get_elem_cache"):
                        S.same(I, s, v, length(t), "summary of a leaf is its length: Rope", "summary")
            finally:
                TM.LEN_RULES[:] = []
    with guarded(rep, "Rope get_len"):
        b = S.method(ROPE, "get_len", "UseLengthFinder")
        if b is not None:
            I = S.interp()
            for v, s in S.run(I, b, [ref("c")], State(), "Rope get_len"):
                S.same(I, s, v, val("c"), "length read from a summary is the summary: Rope", "length")
    rep.floor("Rope summary functions", len([f for f in rep.functions if "RopeTrait" in f]), 5)


def ord_summaries(prog, rep):
    S = Spec(prog, rep)
    some_ = lambda x: rec("std::option::Option", "Some", x)
    seq = val("children")
    with guarded(rep, "Ord::calc_cache_internal"):
        b = S.method(ORD, "calc_cache_internal", "BTreeTrait")
        if b is not None:
            I = S.interp()
            st = State()
            I.assume(st, le(num(1), length(seq)))
            c0 = F(el(seq, num(0)), CHILD, "cache")
            c1 = F(el(seq, sub(length(seq), num(1))), CHILD, "cache")
            for c in (c0, c1):
                I.assume(st, TM.NORMALISERS["isvar"](c, "Some"))
            p0 = fld(c0, "Some", 0, "0")
            p1 = fld(c1, "Some", 0, "0")
            want = some_(tup(fld(p0, None, 0, "0"), fld(p1, None, 1, "1")))
            for v, s in S.run(I, b, [ref("cache"), ref("children")], st, "ordered summary calc_cache_internal"):
                S.same(I, s, I.deref(s, ref("cache")), want, "summary is (smallest key of the first child, largest of the last): ordered map", "summary")
    with guarded(rep, "Ord::get_elem_cache"):
        b = S.method(ORD, "get_elem_cache", "BTreeTrait")
        if b is not None:
            I = S.interp()
            st = State()
            e = val("elem")
            key = fld(fld(e, None, 0, "0"), None, 0, "0")
            for v, s in S.run(I, b, [ref("elem")], st, "ordered summary get_elem_cache"):
                S.same(I, s, v, some_(tup(key, key)), "summary of a leaf is its key twice: ordered map", "summary")
    rep.floor("ordered summary functions", len([f for f in rep.functions if "OrdTrait" in f]), 2)


def length_finder(prog, rep):
    S = Spec(prog, rep)
    cname = [a for a in ("Child",) if a in FIELDS]
    seq = val("children")
    n = length(seq)
    target = sym("target")
    with guarded(rep, "LengthFinder::init"):
        b = S.method(LF, "init", "Query")
        if b is not None:
            I = S.interp()
            for v, s in S.run(I, b, [ref("target")], State(), "LengthFinder init"):
                S.same(I, s, F(v, LF, "left"), val("target"), "search starts with the whole target: LengthFinder", "remaining length")
    with guarded(rep, "LengthFinder::find_node"):
        b = S.method(LF, "find_node", "Query")
        if b is not None:
            I = S.interp()
            st = State()
            I.assume(st, le(num(1), n))
            left0 = F(val("self"), LF, "left")
            k = mk("bv", 0)

            def width(i):
                return mk("app", "get_len", F(el(seq, i), CHILD, "cache"))

            def before(i):
                return TM.sumseq(mkseq([mk("gen", k, num(0), i, width(k))]))
            for v, s in S.run(I, b, [ref("self"), ref("target"), ref("children")], st, "LengthFinder find_node"):
                if v.op != "rec":
                    rep.add("length search: result", "open", str(v))
                    continue
                i, off, found = (s.facts.canon(F(v, FR, x)) for x in ("index", "offset", "found"))
                me = I.deref(s, ref("self"))
                S.holds(s, i, "length search stays inside the children: LengthFinder", "index %s" % i)
                S.holds(s, sub(sub(n, i), num(1)), "length search stays inside the children: LengthFinder", "index %s" % i)
                for t, s2 in I.split_bool(s, found):
                    if not feasible(s2):
                        continue
                    if t:
                        S.same(I, s2, off, sub(left0, before(i)), "found offset is the target minus the length before the child: LengthFinder", "offset")
                        S.holds(s2, sub(sub(width(i), off), num(1)), "found offset lies inside the child: LengthFinder", "offset %s in child of width %s" % (off, width(i)))
                    else:
                        S.same(I, s2, i, sub(n, num(1)), "a missing position resolves to the last child: LengthFinder", "index")
                        S.same(I, s2, off, sub(left0, before(sub(n, num(1)))), "missing offset is measured from the last child: LengthFinder", "offset")
                    S.same(I, s2, F(me, LF, "left"), off, "the search carries the offset down: LengthFinder", "remaining length")
                    # the position of the visited child is reported for the level it is on
                    a0 = F(el(seq, num(0)), CHILD, "arena")
                    nm = s2.facts.variant(a0)
                    if nm == "Leaf":
                        S.same(I, s2, F(me, LF, "slot"), i, "reported slot is the slot of the leaf: LengthFinder", "slot")
                    elif nm == "Internal":
                        p = F(me, LF, "parent")
                        ai = F(el(seq, i), CHILD, "arena")
                        s3 = s2.copy()
                        if I.assume(s3, TM.NORMALISERS["isvar"](ai, "Internal")):
                            S.same(I, s3, p, rec("std::option::Option", "Some", fld(ai, "Internal", 0, "0")), "reported parent is the child descended into: LengthFinder", "parent")
    with guarded(rep, "LengthFinder::confirm_elem"):
        b = S.method(LF, "confirm_elem", "Query")
        if b is not None:
            I = S.interp()
            left0 = F(val("self"), LF, "left")
            w = mk("app", "rle", val("elem"))
            for v, s in S.run(I, b, [ref("self"), ref("target"), ref("elem")], State(), "LengthFinder confirm_elem"):
                off, found = (fld(v, None, j, str(j)) if v.op != "rec" else v.args[2][j] for j in (0, 1))
                S.same(I, s, off, left0, "offset inside the leaf is what remains: LengthFinder", "offset")
                for t, s2 in I.split_bool(s, found):
                    if feasible(s2):
                        S.holds(s2, sub(sub(w, left0), num(1)) if t else sub(left0, w), "found in the leaf exactly when the offset is inside it: LengthFinder", "found=%s" % t)
    rep.floor("LengthFinder functions", len([f for f in rep.functions if "LengthFinder" in f]), 3)


def remember_rounds(I, st, every, k):
    st.ev("rounds", k, tuple(every))
    return True


def passed(I, st, i):
    """what the rounds of loops that went over place i and on have established there"""
    for e in list(st.log):
        if e[0] == "rounds" and entails(st, sub(sub(e[1], i), num(1))) is True:
            for l, v in e[2]:
                if not I.assume(st, TM.subst(l, {e[1]: i}), v):
                    return False
    return True


def cases(I, st, x):
    """[(value without a condition, state)]"""
    x = st.facts.canon(x)
    if x.op != "ite":
        return [(x, st)]
    return [z for b, s in I.split_bool(st, x.args[0]) for z in cases(I, s, x.args[1] if b else x.args[2])]


def ord_search(prog, rep):
    S = Spec(prog, rep)
    seq = val("children")
    n = length(seq)
    with guarded(rep, "OrdTrait::find_node"):
        b = S.method(ORD, "find_node", "Query")
        if b is not None:
            I = S.interp()
            I.ordered = True
            st = State()
            I.assume(st, le(num(1), n))
            # every child of a non-empty ordered tree has a summary
            t = val("key")
            from .engine import isvar

            def bound(s, i, which):
                c = F(el(seq, i), CHILD, "cache")
                if s.facts.variant(s.facts.canon(c)) == "None":
                    return None
                return fld(fld(c, "Some", 0, "0"), None, which, str(which))
            I.exit_rules = list(I.exit_rules) + [remember_rounds]
            outs = S.run(I, b, [ref("self"), ref("key"), ref("children")], st, "ordered find_node", panics=False)
            for what, site, s in I.panic_states:
                # unwrapping a summary that is always there is not a panic
                if feasible(s) and not any(l.op == "isvar" and l.args[1] == "None" and s.facts.lits[l] for l in s.facts.lits):
                    rep.add("no panic on valid arguments: ordered find_node (%s)" % what, "open" if any(l.unk for l in s.facts.lits) else "bad", "%s at %s" % (what, site))
            for v, s in outs:
                if v.op != "rec":
                    rep.add("ordered search: result", "open", str(v))
                    continue
                i, off, found = (s.facts.canon(F(v, FR, x)) for x in ("index", "offset", "found"))
                S.holds(s, i, "ordered search stays inside the children", "index %s" % i)
                S.holds(s, sub(sub(n, i), num(1)), "ordered search stays inside the children", "index %s" % i)
                for f, s2 in I.split_bool(s, found):
                    if not feasible(s2):
                        continue
                    if f:
                        lo, hi = bound(s2, i, 0), bound(s2, i, 1)
                        if lo is None or hi is None:
                            rep.add("a found child spans the key: ordered search", "open", "")
                            continue
                        S.holds(s2, sub(t, lo), "a found child spans the key: ordered search", "key not above the smallest key of the child")
                        S.holds(s2, sub(hi, t), "a found child spans the key: ordered search", "key not below the largest key of the child")
                    else:
                        lo, hi = bound(s2, i, 0), bound(s2, i, 1)
                        if lo is None or hi is None:
                            rep.add("a missing key resolves next to its sorted place: ordered search", "open", "")
                            continue
                        # a summary is an interval
                        I.assume(s2, le(lo, hi))
                        s3 = s2.copy()
                        if I.assume(s3, lt(t, lo)) and feasible(s3) and I.assume(s3, le(num(1), i)) and feasible(s3) and passed(I, s3, sub(i, num(1))) and feasible(s3):
                            S.holds(s3, sub(sub(t, bound(s3, sub(i, num(1)), 1)), num(1)), "a missing key goes after every smaller child: ordered search",
                                    "the key is before child %s, but the previous child is not below it" % i)
                        s3 = s2.copy()
                        if I.assume(s3, le(lo, t)) and feasible(s3) and passed(I, s3, i) and feasible(s3):
                            S.same(I, s3, i, sub(n, num(1)), "a missing key goes before the first larger child: ordered search", "child %s is not above the key" % i)
                            S.holds(s3, sub(sub(t, hi), num(1)), "a key above all children goes after the last: ordered search", "last child is not below the key")
    with guarded(rep, "OrdTrait::confirm_elem"):
        b = S.method(ORD, "confirm_elem", "Query")
        if b is not None:
            I = S.interp()
            I.ordered = True
            t = val("key")
            key = fld(fld(val("elem"), None, 0, "0"), None, 0, "0")
            for v, s in S.run(I, b, [ref("self"), ref("key"), ref("elem")], State(), "ordered confirm_elem"):
                off, found = (v.args[2] if v.op == "rec" else (fld(v, None, 0, "0"), fld(v, None, 1, "1")))
                for off, f, s2 in [(o, f, z) for f, y in I.split_bool(s, found) for o, z in cases(I, y, off)]:
                    if not feasible(s2):
                        continue
                    if f:
                        rep.judge("found only on the equal key: ordered search", entails_eq(s2, t, key), "found although the key differs")
                    else:
                        # before or after the element
                        for w, d in ((0, sub(sub(key, t), num(1))), (1, sub(sub(t, key), num(1)))):
                            s3 = s2.copy()
                            if I.assume(s3, eqi(off, num(w))) and feasible(s3):
                                S.holds(s3, d, "missing key lies on the side the offset says: ordered search", "offset %d" % w)
    rep.floor("ordered search functions", len([f for f in rep.functions if "OrdTrait" in f]), 2)
