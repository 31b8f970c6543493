"""Loop summaries by anti-unification of the states at the loop head.

Values that grow by a constant per iteration become `init + c*k`, vectors extended by one element
per iteration become generated segments, heap cells written at an iteration-dependent key become
quantified layers. Everything else that changes is an unknown of the loop ("phi").
"""
from .terms import *
from . import terms as TM

_ids = {}


def loop_id(key):
    r = _ids.get(key)
    if r is None:
        r = len(_ids)
        _ids[key] = r
    return r


def run_loop(I, fr, h, st):
    blocks = fr.body.loops[h]
    live = fr.body.live[h]
    addr = fr.body.addr

    def keep(root):
        if root[0] == "L" and root[1] == fr.fid:
            return root[2] in live or root[2] in addr or (isinstance(root[2], int) and root[2] < 0)
        return True

    def step(s):
        return I.region(fr, blocks, h, [s], h)

    for r in [r for r in st.store if not keep(r)]:
        del st.store[r]
    # a local whose address was taken, but to which no reference is left
    loose = [r for r in st.store if r[0] == "L" and r[1] == fr.fid and isinstance(r[2], int) and r[2] > fr.body.argc and r[2] not in live]
    if loose:
        held = set()
        for r, v in st.store.items():
            held |= roots_in(v)
        for r in loose:
            if r not in held:
                del st.store[r]
    return summarise(I, (fr.fid, h), st, step, keep)


_roots = {}


def roots_in(t):
    """locals a value refers to"""
    r = _roots.get(t)
    if r is None:
        r = frozenset((t.args[0],)) if t.op == "ref" and t.args[0][0] == "L" else frozenset()
        for a in t.args:
            r |= _roots_arg(a)
        _roots[t] = r
    return r


def _roots_arg(a):
    if isinstance(a, T):
        return roots_in(a)
    r = frozenset()
    if isinstance(a, tuple):
        for x in a:
            r |= _roots_arg(x)
    return r


def model_loop(I, st, it, site, t, body, acc):
    from .models import inext
    ri = ("T", "it", site.fid, site.block)
    ra = ("T", "acc", site.fid, site.block)
    st.store[ri] = it
    st.store[ra] = acc
    bad = []

    def step(s):
        backs, exits = [], []
        outs = inext(I, s, s.store[ri], site, t)
        if outs is None:
            bad.append(1)
            return [], [], []
        for x, n, s2 in outs:
            s2.store[ri] = n
            if x is None:
                exits.append(("done", s2))
                continue
            for a, s3, stop in body(s2, s2.store[ra], x):
                s3.store[ra] = a
                if stop is not None:
                    exits.append((stop, s3))
                else:
                    backs.append(s3)
        return backs, exits, []
    exits, _ = summarise(I, ("model", site.fid, site.block), st, step, lambda r: True)
    if bad:
        return None
    out = []
    for tag, s in exits:
        s.store.pop(ri, None)
        out.append((s.store.pop(ra), s, tag))
    return out


# ------------------------------------------------------------------ anti-unification
class Hole(Exception):
    pass


def parts(a):
    return (a.args[0], a.args[1]) if a.op == "arena" else (a, ())


def cell_val(a, key):
    base, layers = parts(a)
    for l in reversed(layers):
        if l.op == "w" and l.args[0] is key:
            return l.args[1]
    return mk("nd", base, key)


def drop_cells(a, keys):
    base, layers = parts(a)
    rest = tuple(l for l in layers if not (l.op == "w" and l.args[0] in keys))
    return mk("arena", base, rest) if rest or a.op == "arena" else base


def diff(a, b, where, holes, phi, cells=None):
    """template covering both a and b; positions already holes in `a` (phi terms) stay.
    cells: {place of an arena: keys of cells compared one by one}"""
    if a is b:
        return a
    if a in phi:
        return a
    if cells and where in cells and (is_arena(a) or a.op == "arena") and is_arena(b):
        ks = cells[where]
        ra, rb = drop_cells(a, ks), drop_cells(b, ks)
        if ra is not rb and parts(ra)[0] not in phi:
            holes[where] = "arena"
            ra = mk("PHI", where, "arena")
        base, layers = parts(ra)
        ts = tuple(mk("w", key, diff(cell_val(a, key), cell_val(b, key), where + (("cell", key),), holes, phi, cells)) for key in ks)
        return mk("arena", base, layers + ts)
    if a.op == "rec" and b.op == "rec" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        fs = tuple(diff(x, y, where + (i,), holes, phi, cells) for i, (x, y) in enumerate(zip(a.args[2], b.args[2])))
        return mk("rec", a.args[0], a.args[1], fs)
    if a.op == "lin" and any(x in phi for x, _ in a.args[1]):
        return a
    if is_arena(a) or is_arena(b):
        holes[where] = "arena"
        return mk("PHI", where, "arena")
    if b.op == "upd" or a.op == "upd":
        ba, ua = (a.args[0], dict(a.args[1])) if a.op == "upd" else (a, {})
        bb, ub = (b.args[0], dict(b.args[1])) if b.op == "upd" else (b, {})
        if ba is bb:
            r = ba
            for k in set(ua) | set(ub):
                x = fld(a, *k)
                y = fld(b, *k)
                r = setfld(r, *k, diff(x, y, where + (k,), holes, phi, cells))
            return r
    holes[where] = "val"
    return mk("PHI", where, "val")


def is_arena(t):
    return t.op == "arena" or (t.op == "fld" and t.args[3] in ("in_nodes", "leaf_nodes")) or (
        t.op == "app" and t.args[0] in ("emptymap", "emptyarena"))


def get_at(v, where):
    for w in where:
        if isinstance(w, int):
            if v.op != "rec":
                return None
            v = v.args[2][w]
        elif len(w) == 2:
            v = cell_val(v, w[1])
        else:
            v = fld(v, *w)
    return v


def freev(t, x):
    return mentions(t, x)


def const_trips(I, fr_roots, st):
    """the iterators in sight with a known number of items left"""
    from .models import at_most
    out = {}
    for r, v in st.store.items():
        if iterates(v) and (r[0] == "T" or fr_roots(r)):
            if v.args[0] == "I:windows":
                lo, hi, w = (numval(st.facts.canon(x)) for x in v.args[2][1:])
                n = None if lo is None or hi is None else num(max(0, hi - lo - w + 1))
            else:
                n = at_most(v)
            if n is not None:
                c = numval(st.facts.canon(n))
                if c is not None:
                    out[r] = c
    return out


def const_trip(I, fr_roots, st, step=None):
    cs = const_trips(I, fr_roots, st)
    if not cs or step is None or len(cs) == 1 and not getattr(I, "unroll", None):
        return min(cs.values(), default=None)
    # the one the loop goes along
    mark = I.mark()
    backs = step(st.copy())[0]
    I.reset(mark)
    for b in backs:
        now = const_trips(I, fr_roots, b)
        cs = {r: c for r, c in cs.items() if now.get(r, c) < c}
    return min(cs.values(), default=None)


def summarise(I, key, st0, step, keep):
    I.depth = getattr(I, "depth", 0) + 1
    try:
        return _summarise(I, key, st0, step, keep)
    finally:
        I.depth -= 1


def _summarise(I, key, st0, step, keep):
    exits, rets = [], []
    # ---- constant small trip counts: peel
    c = const_trip(I, lambda r: keep(r) and r[0] == "L" and r[1] == key[0], st0, step)
    if c is not None and c <= getattr(I, "peel", 4):
        work = [st0]
        for _ in range(c + 1):
            nxt = []
            for s in work:
                b, e, r = step(s)
                exits += e
                rets += r
                nxt += [x for x in b]
            for s in nxt:
                for rt in [rt for rt in s.store if not keep(rt)]:
                    del s.store[rt]
            work = nxt
            if not work:
                return exits, rets
        # did not terminate as expected: fall through from the remaining states
        for s in work:
            e, r = _general(I, key, s, step, keep)
            exits += e
            rets += r
        return exits, rets
    ours = {r: v for r, v in st0.store.items() if iterates(v) and keep(r) and r[0] == "L" and r[1] == key[0]}
    if ours and getattr(I, "unroll", None):
        mark = I.mark()
        if all(b.store.get(r) is v for b in step(st0.copy())[0] for r, v in ours.items()):
            ours = {}
        I.reset(mark)
    follow = getattr(I, "follow", None)
    if ours and follow:
        # a part that counts what is told goes along with every round
        mark = I.mark()
        work, pe, pr = [st0.copy()], [], []
        for _ in range(follow):
            nxt = []
            for s in work:
                b, e, r = step(s)
                pe += e
                pr += r
                nxt += b
            for s in nxt:
                prep(s, keep)
            work = nxt
            if not work:
                return pe, pr
            if len(work) > 400:
                break
        I.reset(mark)
    if not ours:
        # a loop without an iterator: perhaps it ends after a few rounds
        mark = I.mark()
        work, pe, pr = [st0.copy()], [], []
        bound = getattr(I, "unroll", None)
        for _ in range(bound or 3):
            nxt = []
            for s in work:
                b, e, r = step(s)
                pe += e
                pr += r
                nxt += b
            for s in nxt:
                prep(s, keep)
            work = nxt
            if not work:
                return pe, pr
            if len(work) > 2 and not bound:
                break
        if bound:
            I.note("a loop without an iterator is followed for %d rounds" % bound)
            return pe, pr
        I.reset(mark)
    return _segmented(I, key, st0, step, keep)


def iterates(v):
    if v.op != "rec":
        return False
    k = str(v.args[0])
    return k.startswith("I:") or k.startswith("std::ops::Range") and not (v.args[2] and v.args[2][0].op == "rec")


def seq_of_iter(I, st, v):
    """(where, reversed?, sequence, lo, hi) of the list an iterator walks over"""
    where, back = (), False
    while v.op == "rec":
        k = str(v.args[0])
        if k == "I:seq":
            m, s, lo, hi = v.args[2][:4]
            if m.args[0] != "val":
                if s.op != "ref":
                    return None
                s = I.deref(st, s)
            return where, back, st.facts.canon(s), lo, hi
        if k in ("I:enum", "I:map", "I:copied", "I:proj", "I:rev"):
            if k == "I:rev":
                if v.args[2][0].op == "rec" and v.args[2][0].args[0] == "I:enum":
                    return None
                back = not back
            where += (0,)
            v = v.args[2][0]
            continue
        return None
    return None


def put_at(v, where, x):
    if not where:
        return x
    fs = list(v.args[2])
    fs[where[0]] = put_at(fs[where[0]], where[1:], x)
    return mk("rec", v.args[0], v.args[1], tuple(fs))


def _segmented(I, key, st0, step, keep):
    """a loop over a concatenation runs once per segment"""
    for r, v in st0.store.items():
        if v.op != "rec" or not str(v.args[0]).startswith("I:") or not keep(r) or not (r[0] == "T" or r[1] == key[0]):
            continue
        q = seq_of_iter(I, st0, v)
        if q is None:
            continue
        where, back, s, lo, hi = q
        gs = segs(s)
        if len(gs) < 2 or len(gs) > 8:
            continue
        cuts = []
        pos = num(0)
        for g in gs[:-1]:
            pos = add(pos, seglen(g))
            if st0.facts.entail(sub(lo, pos)) is True or st0.facts.entail(sub(pos, hi)) is True:
                continue
            if st0.facts.entail(sub(pos, lo)) is True and st0.facts.entail(sub(hi, pos)) is True:
                cuts.append(pos)
            else:
                cuts = None
                break
        if not cuts:
            continue
        return _in_pieces(I, key, st0, step, keep, r, where, back, cuts, lo, hi)
    return _apart(I, key, st0, step, keep)


def _apart(I, key, st0, step, keep):
    """a loop that meets cells written before it runs up to each of them, over it and on"""
    mark = I.mark()
    before, I.aliased = getattr(I, "aliased", False), False
    try:
        st = st0.copy()
        had, I.undecided, I.counters = getattr(I, "undecided", None), [], None
        try:
            got = _general(I, key, st, step, keep)
            info = I.counters
        finally:
            I.undecided, I.counters = had, None
        if info is not None and info[3] and getattr(I, "cutting", 0) < 3:
            plan = _plan(I, st0, info)
            if plan is not None:
                I.reset(mark)
                I.cutting = getattr(I, "cutting", 0) + 1
                try:
                    return _by_counter(I, key, st0, step, keep, *plan)
                finally:
                    I.cutting -= 1
        if not I.aliased or I.landmarks is None:
            return got
        for r, v in st0.store.items():
            if v.op != "rec" or not str(v.args[0]).startswith("I:") or not keep(r) or not (r[0] == "T" or r[1] == key[0]):
                continue
            q = seq_of_iter(I, st0, v)
            if q is None:
                continue
            where, back, s, lo, hi = q
            cases = I.landmarks(st0, s, lo, hi)
            if not cases:
                continue
            I.reset(mark)
            exits, rets = [], []
            for n, (s1, cuts) in enumerate(cases):
                I.aliased = False
                e, x = _in_pieces(I, key + ("mark", n), s1, step, keep, r, where, back, cuts, lo, hi) if cuts else _general(I, key + ("mark", n), s1, step, keep)
                exits += e
                rets += x
            return exits, rets
        return got
    finally:
        I.aliased = before


def _plan(I, st0, info):
    """a counter of the loop and the values at which what it indexes goes over from one part of a list to the next"""
    k, lid, counters, und = info
    for s, i in und:
        d = sub(i, k)
        if mentions(d, k) or mentions_phi(d, lid) or mentions_phi(s, lid) or mentions(s, k):
            continue
        gs = segs(s)
        if not 2 <= len(gs) <= 8:
            continue
        for (r, w), init in counters.items():
            cuts, pos = [], num(0)
            for g in gs[:-1]:
                pos = add(pos, seglen(g))
                cut = add(sub(pos, d), init)
                if st0.facts.entail(sub(init, cut)) is True:
                    continue
                if st0.facts.entail(sub(cut, init)) is not True:
                    cuts = None
                    break
                cuts.append(cut)
            if cuts:
                return r, w, cuts
    return None


PIECE = ("piece",)


def _by_counter(I, key, st0, step, keep, r, w, cuts):
    """the loop, one stretch after the other: each ends when the counter gets to its cut"""
    work, exits, rets = [st0], [], []
    for n, cut in enumerate(cuts + [None]):
        def some_rounds(s):
            v = get_at(s.store[r], w) if r in s.store else None
            if v is None:
                return step(s)
            backs, ex, rt = [], [], []
            for b, x in I.split_bool(s, lt(v, cut)):
                if b:
                    a, c, d = step(x)
                    backs += a
                    ex += c
                    rt += d
                else:
                    ex.append((PIECE, x))
            return backs, ex, rt
        nxt = []
        for s1 in work:
            e, rt = _summarise(I, key + ("cut", n), s1, step if cut is None else some_rounds, keep)
            rets += rt
            for tag, x in e:
                (nxt.append(x) if tag is PIECE else exits.append((tag, x)))
        work = nxt
    return exits, rets


def _in_pieces(I, key, st0, step, keep, r, where, back, cuts, lo, hi):
    bounds_ = [lo] + cuts + [hi]
    pieces = [(bounds_[i], bounds_[i + 1]) for i in range(len(bounds_) - 1)]
    if back:
        pieces.reverse()

    def in_piece(s):
        # the piece ends at the head of the loop: leaving by a break on its last item is something else
        v = get_at(s.store[r], where) if r in s.store else None
        if v is None or v.op != "rec" or v.args[0] != "I:seq":
            return step(s)
        backs, ex, rt = [], [], []
        for b, x in I.split_bool(s, lt(v.args[2][2], v.args[2][3])):
            if b:
                a, c, d = step(x)
                backs += a
                ex += c
                rt += d
            else:
                ex.append((PIECE, x))
        return backs, ex, rt
    work = [st0]
    exits, rets = [], []
    for n, (a, b) in enumerate(pieces):
        nxt = []
        for s1 in work:
            it = get_at(s1.store[r], where)
            m, s = it.args[2][:2]
            s1.store[r] = put_at(s1.store[r], where, rec("I:seq", None, m, s, a, b))
            last = n == len(pieces) - 1
            e, rt = _summarise(I, key + ("seg", n), s1, step if last else in_piece, keep)
            rets += rt
            for tag, s2 in e:
                (nxt.append(s2) if tag is PIECE else exits.append((tag, s2)))
        work = nxt
    return exits, rets


def prep(st, keep):
    for rt in [rt for rt in st.store if not keep(rt)]:
        del st.store[rt]


def _general(I, key, st0, step, keep, cells=None):
    cells = cells or {}
    prep(st0, keep)
    mark = I.mark()
    run_body = step
    step0 = step

    def step(s):
        # only the last pass over the body reports
        I.reset(mark)
        return run_body(s)

    lid = loop_id((key, frozenset((r, v.id) for r, v in st0.store.items()), st0.facts.key() if False else None))
    k = mk("bv", "k%d" % lid)
    jv = mk("bv", "j%d" % lid)
    # ---- pass 1: which locations change
    phis = {}      # (root, where) -> kind
    tmpl = st0.copy()
    phi_terms = {}
    for _ in range(8):
        s = tmpl.copy()
        backs, exits, rets = step(s)
        if not backs:
            if not phis:
                return exits, rets
            break
        new = False
        for b in backs:
            prep(b, keep)
            for r in list(tmpl.store) + [r for r in b.store if r not in tmpl.store]:
                if r not in tmpl.store:
                    if r[0] == "O":
                        tmpl.store[r] = mk("deref", r[1])
                    else:
                        continue
                if r not in b.store:
                    continue
                holes = {}
                t = diff(tmpl.store[r], b.store[r], (), holes, phi_terms, cells.get(r))
                if holes:
                    new = True
                    m = {}
                    for w, kind in holes.items():
                        p = mk("phi", lid, r, w)
                        phis[(r, w)] = kind
                        phi_terms[p] = (r, w)
                        m[mk("PHI", w, kind)] = p
                    tmpl.store[r] = subst(t, m)
        tmpl.log = st0.log
        if not new:
            break
    else:
        I.note("loop did not stabilise")
    if not phis:
        # nothing changes: an infinite loop or a body that only exits
        return exits, rets
    # ---- pass 2: classify
    closed = {}
    for (r, w) in phis:
        p = mk("phi", lid, r, w)
        init = get_at(st0.store.get(r, mk("deref", r[1]) if r[0] == "O" else None), w)
        nxts = [get_at(b.store[r], w) for b in backs if r in b.store]
        if init is None or any(x is None for x in nxts) or not nxts:
            continue
        if phis[(r, w)] == "arena":
            continue
        d = [sub(x, p) if intlike(x, p) else None for x in nxts]
        if d[0] is not None and all(x is d[0] for x in d) and numval(d[0]) is not None:
            closed[p] = add(init, scale(k, numval(d[0])))
    # iterator bounds: lo + k <= hi at the loop head
    ctx = []
    for r, v in tmpl.store.items():
        bounds(v, closed, st0, st0.store.get(r), ctx)
    # ---- pass 3: closed forms for vectors and heap cells, using the counters
    arenas = {}
    accs = {}
    for (r, w), kind in phis.items():
        p = mk("phi", lid, r, w)
        if p in closed:
            continue
        init = get_at(st0.store.get(r, mk("deref", r[1]) if r[0] == "O" else None), w)
        if kind == "arena":
            arenas[p] = init
        elif init is not None and seqlike(init, [get_at(b.store[r], w) for b in backs if r in b.store], p):
            accs[p] = init
    arena_closed = dict((p, init) for p, init in arenas.items())
    opaque = set()
    delayed = set()
    steps = {}
    inv_done = False
    for attempt in range(12):
        m = dict(closed)
        for p, init in arena_closed.items():
            if p not in opaque:
                m[p] = init
        s = st0.copy()
        if getattr(I, "undecided", None) is not None:
            I.undecided = []
        for r, v in tmpl.store.items():
            s.store[r] = subst_arena(v, m, opaque, arenas, lid)
        for c in ctx:
            I.assume(s, c)
        head = s.copy()
        backs, exits, rets = step(s)
        # verify / extend
        again = False
        later = []
        for b in backs:
            prep(b, keep)
        for (r, w), kind in phis.items():
            p = mk("phi", lid, r, w)
            if kind == "arena" and p not in opaque:
                cur = get_at(head.store[r], w)
                mine = cells.get(r, {}).get(w, ())
                form = arena_form(I, cur, [(get_at(b.store[r], w), b) for b in backs], head, k, jv, lid, arenas[p], mine)
                if isinstance(form, list):
                    if len(mine) + len(form) <= 4:
                        more = {x: dict(y) for x, y in cells.items()}
                        more.setdefault(r, {})[w] = tuple(mine) + tuple(form)
                        return _general(I, key, st0, step0, keep, more)
                    form = None
                if form == "later":
                    later.append(p)
                    continue
                if form is None:
                    opaque.add(p)
                    again = True
                elif form is not m.get(p):
                    if attempt < 4:
                        arena_closed[p] = form
                        again = True
                    else:
                        opaque.add(p)
                        again = True
            elif p in accs and p not in closed:
                its = []
                good = True
                sets = [set_of(get_at(b.store[r], w), p) for b in backs]
                if sets and all(x is not None and x == sets[0] for x in sets):
                    i, item = sets[0]
                    c = sub(i, k)
                    if not mentions(c, k) and not mentions_phi(item, lid) and not mentions_phi(c, lid):
                        a0 = I.seq_slice(head, accs[p], num(0), c)
                        a1 = I.seq_slice(head, accs[p], add(c, k), length(accs[p]))
                        closed[p] = mkseq(segs(a0) + [mkgen(k, num(0), k, item)] + segs(a1))
                        again = True
                        continue
                for b in backs:
                    x = get_at(b.store[r], w)
                    item = tail_of(x, p)
                    if item is None:
                        good = False
                    else:
                        its.append(item)
                if good and its and all(i is its[0] for i in its):
                    if not any(mentions(its[0], q) for q in phi_terms):
                        closed[p] = concat(accs[p], mkseq([mkgen(k, num(0), k, its[0])]))
                        again = True
                    # otherwise wait for the others
                else:
                    del accs[p]
            elif p in closed:
                # counters hold for every back
                for b in backs:
                    x = get_at(b.store[r], w)
                    want = add(closed[p], steps[p]) if p in steps else subst(closed[p].args[2] if p in delayed and closed[p].op == "ite" else closed[p], {k: add(k, num(1))})
                    if x is not want and x is not None:
                        if st_eq(b, x, want):
                            continue

                        del closed[p]
                        again = True
                        break
        if not again:
            # integers that grow by an iteration-dependent amount: running sums
            for (r, w), kind in phis.items():
                p = mk("phi", lid, r, w)
                if kind == "arena" or p in closed or p in accs:
                    continue
                init = get_at(st0.store.get(r, mk("deref", r[1]) if r[0] == "O" else None), w)
                xs = [get_at(b.store[r], w) for b in backs if r in b.store]
                ds = [sub(x, p) if x is not None and intlike(x, p) else None for x in xs]
                if init is None or not ds or ds[0] is None or any(x is not ds[0] for x in ds) or mentions_phi(ds[0], lid):
                    continue
                closed[p] = add(init, TM.sumseq(mkseq([mkgen(k, num(0), k, ds[0])])))
                steps[p] = ds[0]
                again = True
        if not again:
            # values assigned afresh in every iteration: the previous iteration's value
            for (r, w), kind in phis.items():
                p = mk("phi", lid, r, w)
                if kind == "arena" or p in closed or p in accs:
                    continue
                init = get_at(st0.store.get(r, mk("deref", r[1]) if r[0] == "O" else None), w)
                xs = [get_at(b.store[r], w) for b in backs if r in b.store]
                if init is None or not xs or xs[0] is None or any(x is not xs[0] for x in xs) or mentions_phi(xs[0], lid) or xs[0].hard:
                    continue
                closed[p] = mkite(eqi(k, num(0)), init, subst(xs[0], {k: sub(k, num(1))}))
                again = True
                delayed.add(p)
        if not again and not inv_done and backs:
            # what every iteration establishes about its number still holds, one later, at the head
            inv_done = True
            had = set(head.facts.num)
            for e in list(dict.fromkeys(x for x in backs[0].facts.num if x not in had)):
                if not mentions(e, k) or mentions_phi(e, lid) or e.hard:
                    continue
                if any(b.facts.entail(e) is not True for b in backs[1:]):
                    continue
                e1 = subst(e, {k: sub(k, num(1))})
                c = le(num(0), e1)
                if st0.facts.entail(subst(e, {k: num(-1)})) is True and not head.facts.implies(c) and head.facts.entail(e1) is not True:
                    ctx.append(c)
                    again = True
        if not again and later:
            opaque.update(later)
            again = True
        if not again:
            break
    counters = {}
    for (r, w) in phis:
        c = closed.get(mk("phi", lid, r, w))
        if c is not None and not mentions(sub(c, k), k) and phis[(r, w)] != "arena":
            counters[(r, w)] = sub(c, k)
    I.counters = (k, lid, counters, list(getattr(I, "undecided", None) or ()))
    backlogs = tuple(dict.fromkeys(b.log[len(st0.log):] for b in backs))
    ev = tuple(x for x in backlogs if x)
    every = per_round(backs, head, k, lid)
    if every:
        exits = [(tag, e) for tag, e in exits if I.after_rounds(e, every, k)]
        rets = [(v, e) for v, e in rets if I.after_rounds(e, every, k)]
        if I.panic_states is not None:
            I.panic_states[mark[0]:] = [p for p in I.panic_states[mark[0]:] if I.after_rounds(p[2], every, k)]
    out = []
    for tag, e in exits:
        out.append((tag, finish(e, k, st0, lid, ev)))
    ro = []
    for v, e in rets:
        m = {}
        e2 = finish(e, k, st0, lid, ev)
        val = e2.facts.eqs.get(k)
        ro.append((subst(v, {k: val}) if val is not None else v, e2))
    I.loopinfo.append((key, lid, [str(x) for x in phis], opaque))
    return out, ro


def per_round(backs, head, k, lid):
    """what every completed round has established about its number"""
    r = None
    for b in backs:
        x = {(l, v) for l, v in b.facts.lits.items() if head.facts.lits.get(l) != v and mentions(l, k) and not mentions_phi(l, lid)}
        r = x if r is None else r & x
    return sorted(r or (), key=lambda x: x[0].id)


def st_eq(b, x, want):
    return b.facts.canon(x) is b.facts.canon(want)


def finish(e, k, st0, lid, ev):
    if ev:
        e.log = st0.log + (("loop", lid, ev),) + e.log[len(st0.log):]
    val = e.facts.eqs.get(k)
    if val is not None and not mentions(val, k):
        for r, v in list(e.store.items()):
            n = subst(v, {k: val})
            if n is not v:
                e.store[r] = n
    return e


def intlike(x, p):
    if x.op == "lin":
        return any(a is p for a, _ in x.args[1])
    return False


def bounds(v, closed, st0, v0, ctx):
    """facts lo<=hi of iterators with a closed-form position"""
    if v.op != "rec" or v0 is None or v0.op != "rec":
        return
    kk = str(v.args[0])
    if kk in ("I:seq", "std::ops::Range"):
        lo, hi = (v.args[2][2], v.args[2][3]) if kk == "I:seq" else v.args[2]
        lo0, hi0 = (v0.args[2][2], v0.args[2][3]) if kk == "I:seq" else v0.args[2]
        if kk == "I:seq" or st0.facts.implies(le(lo0, hi0)):
            ctx.append(le(subst(lo, closed), subst(hi, closed)))
        return
    for x, y in zip(v.args[2], v0.args[2]):
        if isinstance(x, T) and isinstance(y, T):
            bounds(x, closed, st0, y, ctx)


def seqlike(init, nxts, p):
    return all(x is not None and (tail_of(x, p) is not None or set_of(x, p) is not None) for x in nxts)


def set_of(x, p):
    """(index, item) when x is p with one element replaced"""
    if x.op != "seq":
        return None
    gs = x.args[0]
    if len(gs) == 3 and gs[0].op == "sl" and gs[2].op == "sl" and gs[0].args[0] is p and gs[2].args[0] is p and \
            numval(gs[0].args[1]) == 0 and gs[2].args[2] is length(p) and numval(sub(gs[2].args[1], gs[0].args[2])) == 1:
        g = gs[1]
        it = g.args[0] if g.op == "u" else el(g.args[0], g.args[1]) if g.op == "sl" and numval(seglen(g)) == 1 else None
        if it is not None:
            return gs[0].args[2], it
    return None


def tail_of(x, p):
    """item when x == p ++ [item]"""
    if x.op != "seq":
        return None
    gs = x.args[0]
    if len(gs) == 2 and gs[0].op == "sl" and gs[0].args[0] is p and numval(gs[0].args[1]) == 0 and gs[0].args[2] is length(p):
        g = gs[1]
        if g.op == "u":
            return g.args[0]
        if g.op == "sl" and numval(sub(g.args[2], g.args[1])) == 1:
            return el(g.args[0], g.args[1])
    return None


def subst_arena(v, m, opaque, arenas, lid):
    m2 = dict(m)
    for p in opaque:
        m2[p] = mk("arena", mk("heapphi", lid, p), ())
    return subst(v, m2)


def arena_form(I, cur, nexts, head, k, jv, lid, init, cells=()):
    """closed form of an arena: its initial layers, then one quantified layer per write of the body;
    a list of keys when the body rewrites the same cells in every iteration"""
    base, layers = I.arena_parts(cur)
    ib, il = I.arena_parts(init)
    layers = tuple(l for l in layers if not (l.op == "w" and l.args[0] in cells))
    il = tuple(l for l in il if not (l.op == "w" and l.args[0] in cells))
    news = []
    seen = set()
    same = []
    for x, b in nexts:
        if x is None:
            return None
        xb, xl = I.arena_parts(x)
        if xb is not base:
            return None
        guards = None
        for l in xl:
            if l in layers or l.op == "w" and l.args[0] in cells:
                continue
            if l.op != "w":
                return None
            key, val = l.args
            if not mentions(key, k):
                # the same cell is written in every iteration
                if mentions_phi(key, lid):
                    return None
                if key not in same:
                    same.append(key)
                continue
            if mentions_phi(key, lid) or mentions_phi(val, lid):
                return "later"
            if guards is None:
                guards = guard_of(b, head, k, lid) if len(nexts) > 1 else ()
            if guards is None:
                return None
            fa = mkfa(jv, num(0), k, tuple(subst(g, {k: jv}) for g in guards), subst(key, {k: jv}), subst(val, {k: jv}))
            if fa not in seen:
                seen.add(fa)
                news.append(fa)
    if same:
        return same
    # merge with earlier quantified layers
    keepl = [l for l in layers if l in il]
    if len(keepl) != len(il):
        # a pre-loop cell was rewritten
        return None
    for fa in news:
        if not reads_cell(fa.args[5], base):
            continue
        for l in keepl:
            if l.op == "w" and may_meet(I, head, fa, l.args[0], k):
                I.aliased = True
                return None
    return mk("arena", base, tuple(keepl) + tuple(news)) if news else init


def reads_cell(t, base):
    """does a value depend on what a cell held before"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "nd" and x.args[0] is base and not x.args[1].op == "sym":
                return True
            todo += x.args
    return False


def may_meet(I, head, fa, key, k):
    """may a cell written before the loop be one of those the loop writes"""
    from .engine import match1
    C = head.facts.canon
    bv, pat, key = fa.args[0], fa.args[4], C(key)
    j = match1(C(pat), key, bv)
    if j is None:
        j = match1(pat, key, bv)
    if j is None:
        return False
    s = head.copy()
    return I.assume(s, le(num(0), j)) and I.assume(s, lt(j, k)) and TM.fm_feasible(s.facts.system([num(0)] + list(s.facts.num))) is not False


def mentions_phi(t, lid):
    return _mp(t, lid, {})


def _mp(t, lid, memo):
    if t.op in ("phi", "heapphi") and t.args[0] == lid:
        return True
    r = memo.get(t)
    if r is None:
        r = any(_mpa(a, lid, memo) for a in t.args)
        memo[t] = r
    return r


def _mpa(a, lid, memo):
    if isinstance(a, T):
        return _mp(a, lid, memo)
    if isinstance(a, tuple):
        return any(_mpa(x, lid, memo) for x in a)
    return False


def guard_of(b, head, k, lid):
    out = []
    for l, v in b.facts.lits.items():
        if head.facts.lits.get(l) == v:
            continue
        if not mentions(l, k):
            continue
        if mentions_phi(l, lid):
            return None
        if head.facts.value(l) is not None:
            continue
        out.append(l if v else neg(l))
    return tuple(out)


# ------------------------------------------------------------------ binders in normal form
def level(t):
    return _lvl(t, {})


def _lvl(t, memo):
    r = memo.get(t)
    if r is None:
        r = 0
        if t.op in ("gen", "fa") and t.args[0].op == "bv" and isinstance(t.args[0].args[0], int):
            r = t.args[0].args[0] + 1
        for a in t.args:
            r = max(r, _lvla(a, memo))
        memo[t] = r
    return r


def _lvla(a, memo):
    if isinstance(a, T):
        return _lvl(a, memo)
    if isinstance(a, tuple):
        return max([_lvla(x, memo) for x in a] + [0])
    return 0


def mkgen(bv, lo, hi, item):
    n = max(level(item), level(lo), level(hi))
    b = mk("bv", n)
    return mk("gen", b, lo, hi, subst(item, {bv: b}))


def mkfa(bv, lo, hi, guards, key, val):
    n = max([level(key), level(val)] + [level(g) for g in guards])
    b = mk("bv", n)
    m = {bv: b}
    return mk("fa", b, lo, hi, tuple(subst(g, m) for g in guards), subst(key, m), subst(val, m))
