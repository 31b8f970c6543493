"""Three-valued comparison of abstract values: equal on the path, different on the path, unknown."""
from .terms import *
from . import terms as TM


FIELDS = {}


def resolve(I, st, terms, limit=14, total=400):
    """[(terms, state)]: slices whose cut points are not ordered with the segment boundaries are
    decided by splitting the state on that order"""
    out = []
    work = [(tuple(terms), st, 0)]
    cnt = 0
    while work:
        ts, s, n = work.pop()
        ts = tuple(s.facts.canon(t) for t in ts)
        sl_ = None
        for t in ts:
            sl_ = find_slice(t)
            if sl_ is not None:
                break
        if sl_ is None:
            out.append((ts, s))
            continue
        base, a, b = sl_.args
        new = I.seq_slice(s, base, a, b)
        if new is not sl_ and find_slice(new) is None:
            ts = tuple(subst(t, {sl_: new}) for t in ts)
            work.append((ts, s, n))
            continue
        cond = None
        pos = num(0)
        for g in segs(base):
            pos = add(pos, seglen(g))
            for x in (a, b):
                for c in (le(x, pos), le(pos, x)):
                    if s.facts.value(c) is None:
                        cond = c
                        break
                if cond is not None:
                    break
            if cond is not None:
                break
        cnt += 1
        if cond is None or n > limit or cnt > total:
            ts = tuple(subst(t, {sl_: unk("slice")}) for t in ts)
            work.append((ts, s, n))
            continue
        for v in (True, False):
            s2 = s.copy()
            if s2.facts.assume(cond, v) and fm_feasible(s2.facts.system([num(0)] + list(s2.facts.num))) is not False:
                work.append((ts, s2, n + 1))
    return out


def find_slice(t, memo=None):
    """an innermost slice subterm"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = None
    for a in t.args:
        r = _fsa(a, memo)
        if r is not None:
            break
    if r is None and (t.op == "slice" or t.op == "sl" and t.args[0].op == "seq"):
        r = t
    memo[t] = r
    return r


def _fsa(a, memo):
    if isinstance(a, T):
        return find_slice(a, memo)
    if isinstance(a, tuple):
        for x in a:
            r = _fsa(x, memo)
            if r is not None:
                return r
    return None


def equal(I, st, a, b):
    """val_eq after resolving slices by case splits"""
    return definite(st, v3and([val_eq(I, s, x, y) for (x, y), s in resolve(I, st, (a, b))]))


def clean_path(st):
    """no branch on a value the analysis does not know, no two cells that turned out to be one"""
    return not any(l.unk for l in st.facts.lits) and not aliased(st) and not any(e[0] == "loop" and told_in(e[2]) for e in st.log)


TOLD = {"usercall", "written", "push", "placed", "prepend", "removed", "walk", "drain", "edit", "base", "repair", "layer", "dirty", "cut", "taken",
        "line", "built", "find_node", "confirm", "nextnode", "answer"}


def told_in(evs):
    """the calls a judgement counts happened a number of times the summary of a loop does not tell"""
    for x in evs:
        for e in x:
            if isinstance(e, tuple) and e and (e[0] in TOLD or e[0] == "loop" and told_in(e[2])):
                return True
    return False


def aliased(st):
    for v in st.store.values():
        if v.op in ("rec", "upd"):
            for a in v.args[2] if v.op == "rec" else [x for _, x in v.args[1]]:
                if a.op == "arena" and a.args[0].op == "heapphi":
                    return True
                if a.op == "arena" and len(a.args[1]) > 1:
                    ks = [st.facts.canon(l.args[0]) for l in a.args[1] if l.op == "w"]
                    if len(set(ks)) < len(ks) or any(unlocated(k) for k in ks):
                        return True
                if a.op == "arena" and any(l.op == "fa" and l.args[4].unk for l in a.args[1]):
                    return True
    return False


def unlocated(k):
    """an entry of an assembled list, at a place not known"""
    while k.op == "fld":
        k = k.args[0]
    return k.op == "el" and k.args[0].op in ("seq", "sl", "slice", "gen")


def definite(st, v, *terms):
    """a violation counts only on a path, and between values, the analysis knows exactly"""
    if v is False and (not clean_path(st) or any(t.unk for t in terms)):
        return None
    return v


def entails(st, e):
    return definite(st, st.facts.entail(e), st.facts.canon(e))


def entails_eq(st, a, b):
    return definite(st, st.facts.entail_eq(a, b), st.facts.canon(a), st.facts.canon(b))


def v3and(xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def val_eq(I, st, a, b, depth=0):
    F = st.facts
    if a is b:
        return True
    a = F.canon(a)
    b = F.canon(b)
    if a is b:
        return True
    if a.unk or b.unk:
        # a difference in a known part still counts
        if a.op == "rec" and b.op == "rec" and a.args[1] != b.args[1] and a.args[0] == b.args[0]:
            return False
        if a.op == "rec" and b.op == "rec" and a.args[:2] == b.args[:2]:
            r = v3and([val_eq(I, st, x, y, depth + 1) for x, y in zip(a.args[2], b.args[2])])
            return r
        return None
    if a.op != "rec" and b.op != "rec" and depth < 12:
        c = find_cond(a) or find_cond(b)
        if c is not None:
            out = []
            for v, s in I.split_bool(st.copy(), c):
                if fm_feasible(s.facts.system([num(0)] + list(s.facts.num))) is not False:
                    out.append(val_eq(I, s, pick(a, c, v), pick(b, c, v), depth + 1))
            return v3and(out)
    if a.op == "lin" or b.op == "lin" or is_sum(a) or is_sum(b):
        r = F.entail_eq(a, b)
        if r is True:
            return r
        e = prefix_sums(F, sub(a, b))
        return F.entail_eq(e, num(0)) if e is not None else r
    if seqish(a) or seqish(b):
        return seq_eq(I, st, a, b, depth)
    if a.op == "rec" and b.op == "rec":
        if a.args[0] != b.args[0] or a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]):
            return False
        return v3and([val_eq(I, st, x, y, depth + 1) for x, y in zip(a.args[2], b.args[2])])
    if a.op == "ite" or b.op == "ite":
        if a.op != "ite":
            a, b = b, a
        out = []
        for v, s in I.split_bool(st.copy(), a.args[0]):
            out.append(val_eq(I, s, a.args[1] if v else a.args[2], b, depth + 1))
        return v3and(out)
    if a.op == "rec" or b.op == "rec":
        if a.op != "rec":
            a, b = b, a
        n = F.variant(b)
        if a.args[1] is not None and n is not None:
            if n != a.args[1]:
                return False
            return v3and([val_eq(I, st, x, fld(b, a.args[1], i, str(i)), depth + 1) for i, x in enumerate(a.args[2])])
        if a.args[1] is None:
            nm = FIELDS.get(a.args[0])
            return v3and([val_eq(I, st, x, fld(b, None, i, nm[i] if nm else str(i)), depth + 1) for i, x in enumerate(a.args[2])])
        return False
    if F.implies(eq(a, b)):
        return True
    if a.op in ("upd",) or b.op in ("upd",):
        ba, ua = (a.args[0], dict(a.args[1])) if a.op == "upd" else (a, {})
        bb, ub = (b.args[0], dict(b.args[1])) if b.op == "upd" else (b, {})
        if ba is bb:
            return v3and([val_eq(I, st, fld(a, *k), fld(b, *k), depth + 1) for k in set(ua) | set(ub)])
    if a.op == b.op == "app" and a.args[0] == b.args[0] and len(a.args) == len(b.args) and depth < 12:
        # congruence can only establish equality
        r = v3and([val_eq(I, st, x, y, depth + 1) if isinstance(x, T) and isinstance(y, T) else x == y
                   for x, y in zip(a.args[1:], b.args[1:])])
        if r is not False:
            return r
    return False


def is_sum(t):
    return t.op == "app" and t.args[0] == "sum"


def prefix_sums(F, e):
    r = None
    for _ in range(4):
        n = _prefix_sums(F, e if r is None else r)
        if n is None or n is r:
            break
        r = n
    return r


def _prefix_sums(F, e):
    """e with every sum over a range written as a difference of prefix sums, and those combined"""
    c, d = TM._lin(F.canon(e))
    if not any(is_sum(x) for x in d):
        return None
    out = mklin(c, {x: k for x, k in d.items() if not is_sum(x)})
    P = {}
    for x, k in d.items():
        if not is_sum(x):
            continue
        gs = segs(x.args[1])
        for g in gs:
            if g.op == "gen":
                bv, lo, hi, f = g.args
                if f.unk:
                    return None
                fb = mk("bv", "ps")
                f = subst(f, {bv: fb})
            elif g.op == "sl":
                fb = mk("bv", "ps")
                f, lo, hi = el(g.args[0], fb), g.args[1], g.args[2]
            else:
                return None
            t = P.setdefault(f, [])
            t.append((hi, k))
            t.append((lo, -k))
    for f, ts in P.items():
        # equal positions together
        acc = []
        for p, k in ts:
            for r in acc:
                if r[0] is p or F.entail_eq(r[0], p) is True:
                    r[1] += k
                    break
            else:
                acc.append([p, k])
        acc = [r for r in acc if r[1]]
        # neighbouring positions differ by the elements between
        go = True
        while go:
            go = False
            for r in acc:
                for q in acc:
                    n = None
                    for m in (1, 2, 3):
                        if r is not q and r[1] > 0 and q[1] < 0 and F.entail_eq(sub(r[0], q[0]), num(m)) is True:
                            n = m
                        elif r is not q and r[1] > 0 and q[1] < 0 and F.entail_eq(sub(q[0], r[0]), num(m)) is True:
                            n = -m
                    if n is None:
                        continue
                    k = min(r[1], -q[1])
                    base = q[0] if n > 0 else r[0]
                    for i in range(abs(n)):
                        v = F.canon(subst(f, {mk("bv", "ps"): add(base, num(i))}))
                        out = add(out, scale(v, k if n > 0 else -k))
                    r[1] -= k
                    q[1] += k
                    acc = [x for x in acc if x[1]]
                    go = True
                    break
                if go:
                    break
        for p, k in acc:
            out = add(out, scale(mk("app", "psum", f, F.canon(p)), k))
    return F.canon(out)


def find_cond(t):
    """the condition of a conditional value outside any binder"""
    if t.op == "ite":
        return t.args[0]
    if t.op in ("gen", "bv", "num", "sym"):
        return None
    for a in t.args:
        for x in a if isinstance(a, tuple) else (a,):
            if isinstance(x, T):
                r = find_cond(x)
                if r is not None:
                    return r
    return None


def pick(t, c, v):
    """the value with condition c decided"""
    m = {}

    def go(x):
        if x.op == "ite" and x.args[0] is c:
            m[x] = x.args[1] if v else x.args[2]
        elif x.op not in ("gen",):
            for a in x.args:
                for y in a if isinstance(a, tuple) else (a,):
                    if isinstance(y, T):
                        go(y)
    go(t)
    return subst(t, m) if m else t


def seqish(t):
    return t.op in ("seq", "sl", "slice") or (t.op == "app" and t.args[0] in ("repeat",))


def seq_eq(I, st, a, b, depth=0):
    return _seq_eq(I, st, segs_of(I, st, a), segs_of(I, st, b), depth, 0)


def segs_of(I, st, s):
    s = st.facts.canon(s)
    return segs(s)


def cut(g, n):
    """split a segment after n elements"""
    if g.op == "sl":
        b, lo, hi = g.args
        m = add(lo, n)
        return sl(b, lo, m), sl(b, m, hi)
    if g.op == "gen":
        k, lo, hi, t = g.args
        m = add(lo, n)
        return mk("gen", k, lo, m, t), mk("gen", k, m, hi, t)
    return None


def _seq_eq(I, st, xs, ys, depth, splits):
    F = st.facts
    xs = list(xs)
    ys = list(ys)
    unknown = False
    while True:
        while xs and F.entail(scale(seglen(xs[0]), -1)) is True:
            xs.pop(0)
        while ys and F.entail(scale(seglen(ys[0]), -1)) is True:
            ys.pop(0)
        if not xs and not ys:
            return None if unknown else True
        if not xs or not ys:
            rest = xs or ys
            if any(g.unk for g in rest):
                return None
            # some valuation leaves elements over
            return False
        x, y = xs[0], ys[0]
        if x.unk and x.op not in ("u", "gen") or y.unk and y.op not in ("u", "gen"):
            return None
        lx, ly = seglen(x), seglen(y)
        if F.entail_eq(lx, ly) is True:
            px, py = x, y
            xs.pop(0)
            ys.pop(0)
        elif F.entail(sub(ly, lx)) is True:
            c = cut(y, lx)
            if c is None:
                return None
            px, py = x, c[0]
            xs.pop(0)
            ys[0] = c[1]
        elif F.entail(sub(lx, ly)) is True:
            c = cut(x, ly)
            if c is None:
                return None
            px, py = c[0], y
            ys.pop(0)
            xs[0] = c[1]
        else:
            if splits >= 6:
                return None
            out = []
            for cond in (le(lx, ly), neg(le(lx, ly))):
                s = st.copy()
                if s.facts.assume(cond) and fm_feasible(s.facts.system([num(0)] + list(s.facts.num))) is not False:
                    out.append(_seq_eq(I, s, xs, ys, depth + 1, splits + 1))
            r = v3and(out)
            return None if (r is True and unknown) else r
        n = seglen(px)
        r = seg_eq(I, st, px, py, n, depth)
        if r is False:
            return False
        if r is None:
            unknown = True


def seg_eq(I, st, x, y, n, depth):
    F = st.facts
    if x is y:
        return True
    if x.op == "sl" and y.op == "sl":
        if x.args[0] is y.args[0] or val_same(I, st, x.args[0], y.args[0]):
            r = F.entail_eq(x.args[1], y.args[1])
            return r
        if x.unk or y.unk:
            return None
        return False
    # elementwise at a generic index
    j = mk("bv", ("cmp", depth))
    s = st.copy()
    s.facts.assume(lt(j, n))
    return val_eq(I, s, elem(I, s, x, j), elem(I, s, y, j), depth + 1)


def val_same(I, st, a, b):
    return st.facts.canon(a) is st.facts.canon(b)


def elem(I, st, g, j):
    if g.op == "u":
        return g.args[0]
    if g.op == "sl":
        return I.seq_get(st, g.args[0], add(g.args[1], j))
    if g.op == "gen":
        return subst(g.args[3], {g.args[0]: add(g.args[1], j)})
    return mk("el", g, j)
