"""The tree operations, over an arbitrary well-formed tree: one part per operation, obligations by property."""
import multiprocessing
import os
import time
from .tree import *
from .treejudge import *
from .engine import DEAD
from .util import guarded

PARTS = []


def part(*pids, **kw):
    """wip=True: only run when asked for by name"""
    def f(fn_):
        if kw.get("wip") and not os.environ.get("VP_WIP"):
            return fn_
        PARTS.append((fn_.__name__, frozenset(pids), fn_, kw.get("seconds", 150)))
        return fn_
    return f


class Sink:
    """obligations of all properties; only one property is kept"""

    def __init__(self, rep, pids):
        self.rep = rep
        self.pids = pids

    def put(self, pid, key, status, msg=""):
        if self.rep.pid == "*":
            self.rep.add(pid + " " + key, status, msg)
        elif pid == self.rep.pid:
            self.rep.add(key, status, msg)

    def all(self, key, status, msg=""):
        for p in self.pids:
            self.put(p, key, status, msg)


def _work(job):
    i, tier = job
    name, pids, fn_, secs = PARTS[i]
    from .check import Report
    rep = Report(_PID, tier)
    t0 = time.time()
    with guarded(rep, name, secs):
        fn_(_PROG, rep, Sink(rep, pids))
    return i, rep.obl, rep.functions, rep.notes, rep.floors, time.time() - t0


def run(prog, rep, only=None):
    from . import p_ord, p_nav, p_misc, p_upd, p_rope, p_drain, p_iter, p_args, p_bulk, p_small
    global _PROG, _PID
    _PROG, _PID = prog, rep.pid
    p_misc.register_reads(prog)
    jobs = [(i, rep.tier) for i, p in enumerate(PARTS) if (rep.pid == "*" or rep.pid in p[1]) and (only is None or p[0] in only)]
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
        for i, obl, funcs, notes, floors, dt in pool.imap_unordered(_work, jobs, 1):
            rep.obl += obl
            for k, v in funcs.items():
                if k in rep.functions:
                    rep.functions[k]["paths"] += v["paths"]
                else:
                    rep.functions[k] = v
            rep.notes += ["%s: %s" % (PARTS[i][0], x) for x in notes]
            rep.floors += floors


THEORIES = (Diff, Free)


class OneOp:
    """one operation under one theory of summaries"""

    def __init__(self, prog, rep, sink, theory, name, contracts=None, drop=(), label=None, unroll=None, inside=()):
        self.T = Tree(prog, rep, theory, inside)
        self.rep, self.sink, self.name = rep, sink, name
        self.label = label or name
        self.extra = contracts or {}
        self.drop = drop
        self.unroll = unroll

    def __enter__(self):
        T = self.T
        T.__enter__()
        ks = T.contracts()
        ks.update(self.extra)
        for d in self.drop:
            ks.pop(d, None)
        self.I = T.interp(ks)
        self.I.unroll = self.unroll
        self.body = T.P.find("BTree::" + self.name) if "::" not in self.name else T.P.find(self.name)
        return self

    def __exit__(self, *a):
        self.T.__exit__()

    def run(self, args, st, label=None):
        if self.body is None:
            self.rep.notes.append("%s not found" % self.name)
            return []
        for n in self.extra:
            if "BTree::" in n and self.T.P.find(n) is None:
                self.rep.notes.append("%s: %s not found" % (self.name, n))
                return []
        label = label or self.label
        self.I.steps = 0
        outs = self.T.run(self.I, self.body, args, st, label, panics=False)
        self.panics(label)
        self.caps(label)
        for _, s in outs:
            self.merges(s, label)
        return outs

    def judge(self, pid, rule, s, got, want):
        r = J.equal(self.I, s, got, want)
        self.sink.put(pid, rule + ": " + self.label, "ok" if r is True else "bad" if r is False else "open", "got %s, want %s" % (got, want))

    def judge_known(self, pid, rule, s, r):
        if r is False and (not clean_path(s) or any(self.I.arena_parts(a)[0].unk for a in self.T.arenas(s))):
            r = None
        self.sink.put(pid, rule + ": " + self.label, "ok" if r is True else "bad" if r is False else "open", "")

    def panics(self, label):
        bad = 0
        for what, site, s in self.I.panic_states:
            if feasible(s):
                bad += 1
                self.sink.all("returns normally: %s (%s)" % (label, what), "bad" if clean_path(s) else "open", "%s at %s" % (what, self.I.chain(site)))
        if not bad:
            self.sink.all("returns normally: " + label, "ok")

    def caps(self, label):
        for site, cap, need, okc, s in self.I.cap_events:
            if okc or not feasible(s):
                self.sink.put("C04", "node and path capacity suffices: " + label, "ok")
            else:
                st = J.entails(s, sub(num(cap), need))
                self.sink.put("C04", "node and path capacity suffices: " + label, "ok" if st else "bad" if st is False else "open",
                              "%s needed of %d at %s" % (need, cap, site))

    def merges(self, s, label):
        for e in s.log:
            if e[0] == "merge":
                ok_ = e[4]
                self.sink.put("C06", "elements are merged only if the left accepts the right: " + label,
                              "ok" if ok_ is True else "bad" if ok_ is not True and clean_path(s) and not (e[1].unk or e[2].unk) else "open",
                              "%s merged with %s at %s" % (e[1], e[2], e[3]))


def epochs(T, s):
    """[(arenas, log index, full node)] in order of time"""
    out = []
    for i, e in enumerate(s.log):
        if e[0] == "split":
            out.append(((e[2], e[3]), i, e[1], e[5] if len(e) > 5 else "split"))
    out.append((T.arenas(s), len(s.log), None, None))
    return out


class Only:
    """obligations of some properties; the others are not this part's"""

    def __init__(self, sink, pids):
        self.sink = sink
        self.pids = pids

    def put(self, pid, key, status, msg=""):
        if pid in self.pids:
            self.sink.put(pid, key, status, msg)

    def all(self, key, status, msg=""):
        for p in self.pids:
            self.put(p, key, status, msg)


class Quiet:
    """obligations kept apart"""

    def __init__(self, pids):
        self.pids = pids
        self.got = []

    def put(self, pid, key, status, msg=""):
        self.got.append((pid, key, status, msg))


def verdict(items):
    return J.v3and([True if x[2] == "ok" else False if x[2] == "bad" else None for x in items])


def chain(pos, n, good):
    """epoch at which the content reaches its last level, None when it cannot

    pos: per epoch (verdict of no change, [verdict of a change to each level]); levels are reached in order"""
    def go(i, lvl, at):
        if i == len(pos):
            return at if lvl == n - 1 else None
        if good(pos[i][0]):
            r = go(i + 1, lvl, at)
            if r is not None:
                return r
        for j in range(lvl + 1, n):
            if good(pos[i][1][j][0]):
                r = go(i + 1, j, i)
                if r is not None:
                    return r
        return None
    return go(0, -1, None)


def heap_after(op, v, s, tag, expect=None, cursor=None, stale_ok=(), empty=(), extra=None, order=True):
    """judge every epoch of one outcome.

    expect: content of some leaves after the operation (see View.order), None when nothing may change;
            a list when the content may be reached in steps
    cursor: function(view) -> (value, wanted segments before it)"""
    T, I, sink = op.T, op.I, op.sink
    levels = expect if isinstance(expect, list) else [expect] if expect else []

    def body(view, out):
        x = view.s
        eps = epochs(T, x)
        pos = []
        for n, (ar, upto, full, why) in enumerate(eps):
            y = x.copy()
            y.log = x.log[:upto]
            w = View(T, I, y, ar)
            F_, E_ = (), ()
            if why == "split":
                F_ = (x.facts.canon(full),)
                ln = length(w.children(w.C(full)))
                out.judge("C04", "only a node with enough children is split", J.entails(y, sub(ln, num(4))), "node %s has %s children" % (full, ln))
            elif why is not None:
                E_ = (x.facts.canon(full),)
                if why == "empty":
                    ln = length(w.children(w.C(full)))
                    out.judge("C03", "a node is dropped only when it has no children", J.entails_eq(y, ln, num(0)), "node %s has %s children" % (full, ln))
            w.links(out)
            w.occupancy(out, F_, tuple(empty) + E_)
            w.summaries(out, stale_ok)
            if order:
                a = Out(Quiet(sink.pids), "")
                View(T, I, y, ar).order(a)
                va = verdict(a.items)
                vs = []
                for ex in levels:
                    b = Out(Quiet(sink.pids), "")
                    View(T, I, y, ar).order(b, ex)
                    vs.append((verdict(b.items), b))
                pos.append((va, vs, a, ar, y))
        if order:
            rule = "elements keep their order"
            if not levels:
                r = J.v3and([p[0] for p in pos])
                bad = [m for p in pos if p[0] is False for m in p[2].items if m[2] == "bad"]
                out.judge("C03", rule, r, bad[0][3] if bad else "")
            else:
                sure = chain(pos, len(levels), lambda v: v is True)
                differ = [i for i in range(len(pos)) if pos[i][0] is False]
                if sure is not None:
                    r, m = True, ""
                elif chain(pos, len(levels), lambda v: v is not False) is not None or len(differ) > len(levels):
                    r, m = None, ""
                else:
                    i = differ[-1] if differ else len(pos) - 1
                    bad = [m for m in pos[i][1][-1][1].items if m[2] == "bad"]
                    r, m = False, bad[0][3] if bad else ""
                out.judge("C03", rule, r, m)
                if "C06" in sink.pids and any(e[0] == "merge" for e in x.log):
                    out.judge("C06", "a merged element takes the place of both", r, m)
                if cursor is not None and sure is not None:
                    cursor(out, View(T, I, pos[sure][4], pos[sure][3]))
        if extra is not None:
            extra(out, view)
    by_cases(T, I, s, sink, op.label + tag, body)


def sequel(a, n):
    """first n elements of a content"""
    return sl(mkseq(a), num(0), n)


def cursor_of(v):
    """(leaf key, offset) of a cursor"""
    return fld(F(v, "Cursor", "leaf"), None, 0, "0"), F(v, "Cursor", "offset")


def mkcursor(k, off):
    names = FIELDS["Cursor"]
    d = {"leaf": mk("rec", "LeafIndex", None, (k,)), "offset": off}
    return mk("rec", "Cursor", None, tuple(d[n] for n in names))


HEAP = ("C01", "C02", "C03", "C04", "C05", "C06", "C16")


def check_cursor(what, v, prefix, expect):
    """the returned cursor stands right behind `prefix(view)`"""
    def f(out, w):
        k, off = cursor_of(v)
        k, off = w.C(k), w.C(off)
        for x in expect:
            if x is not None:
                w.focus.add(x)
        b = w.before(k, off)
        if b is None:
            out.judge("C05", "the returned cursor names a live leaf", J.definite(w.s, False, k), "leaf %s" % k)
            return
        p, got = b
        want = prefix(w, p)
        if want is None:
            return
        out.judge("C05", what, J.equal(w.I, w.s, mkseq(got), mkseq(want)), "cursor is behind %s, want behind %s" % (mkseq(got), mkseq(want)))
    return f


def insert_prefix(L, off, extra):
    """everything of L's parent before offset `off` of leaf L, then `extra`"""
    def f(w, p):
        if w.parent0_of_leaf(L) is not p:
            return None
        ch = w.children0(p)
        out = w.flat_list(mkseq([sl(ch, num(0), w.slot0_of_leaf(L))]), False)
        return out + [sl(mkseq(content(w.T.elem0(L, w.lb))), num(0), off)] + extra
    return f


def reported(op, s, splitted, known=()):
    """every element the operation put into a leaf of its own is named in what it returns"""
    T, I = op.T, op.I
    _, LN = T.arenas(s)
    C = s.facts.canon
    new = set()
    for a, _, _, _ in epochs(T, s):
        for l in I.arena_parts(a[1])[1]:
            if l.op == "w" and l.args[0].op == "fresh" and l.args[1] is not DEAD:
                new.add(C(l.args[0]))
    new -= {C(k) for k in known}
    arr = C(F(splitted, "SplittedLeaves", "arr"))
    told = set()
    sure = True
    for g in segs(arr) if arr.op == "seq" else [arr]:
        if g.op == "u":
            told.add(C(fld(g.args[0], None, 0, "0")))
        else:
            sure = False
    miss = [k for k in new if I.arena_get(s, LN, k) is not DEAD and k not in told]
    op.sink.put("C05", "the handles of new elements are returned: " + op.label, "ok" if not miss else "bad" if sure and clean_path(s) else "open",
                "%s not among %s" % (miss, arr))


@part(*HEAP)
def insert_by_path(prog, rep, sink):
    for th in THEORIES:
        with OneOp(prog, rep, sink, th(), "insert_by_path") as op:
            T, I = op.T, op.I
            k, off, data = sym("k"), sym("off"), sym("data")
            st = T.start(I, leaf=k)
            e = T.elem0(k)
            I.assume(st, le(off, rle_of(e)))
            c = content(e)
            exp = {k: [sl(mkseq(c), num(0), off)] + content(data) + [sl(mkseq(c), off, rle_of(e))]}
            outs = op.run([ref("self"), mkcursor(k, off), data], st)
            for v, s in outs:
                r = v.args[2][0] if v.op == "rec" else fld(v, None, 0, "0")
                if v.op == "rec":
                    reported(op, s, v.args[2][1], [cursor_of(r)[0]])
                heap_after(op, v, s, "", exp, check_cursor("the returned cursor is where the element was inserted", r, insert_prefix(k, off, []), exp))


@part(*HEAP)
def push(prog, rep, sink):
    for th in THEORIES:
        with OneOp(prog, rep, sink, th(), "push") as op:
            T, I = op.T, op.I
            data = sym("data")
            st = T.start(I)
            k = mk("app", "lastleaf", T.IN0)
            for v, s in op.run([ref("self"), data], st):
                if s.facts.value(eqi(length(T.children(T.R)), num(0))) is True:
                    exp, where = {None: content(data)}, None
                else:
                    exp = {k: content(T.elem0(k)) + content(data)}
                    where = check_cursor("the returned cursor is where the element was inserted", v, insert_prefix(k, rle_of(T.elem0(k)), []), exp)
                heap_after(op, v, s, "", exp, where)


@part(*HEAP)
def prepend(prog, rep, sink):
    for th in THEORIES:
        with OneOp(prog, rep, sink, th(), "prepend") as op:
            T, I = op.T, op.I
            data = sym("data")
            st = T.start(I)
            k = mk("app", "firstleaf", T.IN0)
            for v, s in op.run([ref("self"), data], st):
                if s.facts.value(eqi(length(T.children(T.R)), num(0))) is True:
                    exp, where = {None: content(data)}, None
                else:
                    exp = {k: content(data) + content(T.elem0(k))}
                    where = check_cursor("the returned cursor is where the element was inserted", v, insert_prefix(k, num(0), []), exp)
                heap_after(op, v, s, "", exp, where)


@part(*HEAP)
def split(prog, rep, sink):
    """a node with more than one child is split; the parent is split by the same function if need be"""
    with OneOp(prog, rep, sink, Diff(), "split") as op:
        T, I = op.T, op.I
        n = sym("n")
        T.full = [n, T.R]
        st = T.start(I, node=n)
        I.assume(st, le(num(4), length(T.children(n))))
        for v, s in op.run([ref("self"), T.inode(n)], st):
            heap_after(op, v, s, "")


LACK = ("C01", "C02", "C03", "C04", "C05", "C16")


@part(*LACK)
def handle_lack_single_layer(prog, rep, sink):
    """a node short of children borrows from or merges with a neighbour, an empty one is dropped"""
    with OneOp(prog, rep, sink, Diff(), "handle_lack_single_layer", unroll=3) as op:
        T, I = op.T, op.I
        n = sym("n")
        st = T.start(I, node=n)
        for v, s in op.run([ref("self"), T.inode(n)], st):
            heap_after(op, v, s, "", empty=(T.par(n),))


def unchanged(op, s, tag, what="the tree is left as it was"):
    """nothing of the tree was written on this path"""
    T, sink = op.T, op.sink
    me = fresh_self(op, s)
    r = J.equal(op.I, s, me, op.T.me)
    sink.put("C21", what + ": " + op.label + tag, "ok" if r is True else "bad" if r is False else "open", "tree afterwards: %s" % (me,))


def fresh_self(op, s):
    return op.T.now(s)


@part("C01", "C02", "C03", "C04", "C05", "C16", "C21")
def remove_leaf(prog, rep, sink):
    """the element goes, its parent is repaired when it got short of children, an unknown handle changes nothing"""
    for th in THEORIES:
        with OneOp(prog, rep, sink, th(), "remove_leaf") as op:
            T, I = op.T, op.I
            k, off = sym("k"), sym("off")
            st = T.start(I)
            for v, s in op.run([ref("self"), mkcursor(k, off)], st):
                live = s.facts.value(mk("app", "alive", T.ld(k)))
                if live is False:
                    unchanged(op, s, "")
                    op.judge("C21", "an unknown handle yields nothing", s, v, NONE)
                    continue
                T.leaves = [k]
                heap_after(op, v, s, "", {k: []})
                op.judge("C05", "the removed element is returned", s, v, some(T.elem0(k)))
                gone = any(x is DEAD for x in [I.arena_get(s2, a[1], k) for a, s2 in [(e[0], s) for e in epochs(T, s)]])
                sink.put("C05", "the handle of a removed element stops resolving: remove_leaf", "ok" if gone else "bad" if clean_path(s) else "open", "leaf stays allocated")


@part(*LACK)
def remove_internal_node(prog, rep, sink):
    """a node without children leaves its parent, the root never does"""
    with OneOp(prog, rep, sink, Diff(), "remove_internal_node") as op:
        T, I = op.T, op.I
        n = sym("n")
        st = T.start(I, node=n)
        I.assume(st, eqi(length(T.children(n)), num(0)))
        for v, s in op.run([ref("self"), n], st):
            heap_after(op, v, s, "")


@part("C16")
def handle_lack_recursively(prog, rep, sink):
    """the repair goes on with the parent as long as one layer reports the parent short of children"""
    def layer(I, args, st, site, t, body):
        a = st.facts.canon(args[1])
        st.ev("layer", a)
        n = sum(1 for e in st.log if e[0] == "layer")
        return [(mk("app", "lack", num(n)), st)]
    with OneOp(prog, rep, sink, Diff(), "handle_lack_recursively", {"BTree::handle_lack_single_layer": layer}, drop=("BTree::handle_lack_recursively",), unroll=3) as op:
        T, I = op.T, op.I
        n = sym("n")
        st = T.start(I, node=n)
        for v, s in op.run([ref("self"), T.inode(n)], st):
            ls = [e[1] for e in s.log if e[0] == "layer"]
            want = [T.inode(n)]
            for i in range(1, len(ls)):
                want.append(fld(F(mk("app", "lack", num(i)), "LackInfo", "parent_lack"), "Some", 0, "0"))
            for i, (a, b) in enumerate(zip(ls, want)):
                op.judge("C16", "every layer reported short is repaired", s, a, b)
            last = F(mk("app", "lack", num(len(ls))), "LackInfo", "parent_lack")
            op.judge_known("C16", "the repair ends only when no layer above is short", s, s.facts.variant(last) == "None" if s.facts.variant(last) else None if not ls else False)
            if not ls:
                op.judge_known("C16", "the node is repaired", s, False)


@part("C01", "C02", "C03", "C04", "C05", "C16")
def recursive_update_cache(prog, rep, sink):
    """after one node or element was rewritten, every summary above it follows"""
    for th in THEORIES:
        for what in ("node", "element"):
            for given in (False, True):
                with OneOp(prog, rep, sink, th(), "recursive_update_cache", drop=("BTree::recursive_update_cache",), unroll=3,
                           label="recursive_update_cache of a rewritten %s%s" % (what, ", difference given" if given else "")) as op:
                    T, I = op.T, op.I
                    n, k, new = sym("n"), sym("k"), sym("new")
                    IN, LN = T.IN0, T.LN0
                    if what == "node":
                        op.sink = Only(sink, ("C02",))
                        st = T.start(I, node=n)
                        node = T.nd(n)
                        IN = I.arena_set(st, IN, n, setfld(node, None, FIELDS["Node"].index("children"), "children", new))
                        I.assume(st, le(num(1), length(new)))
                        idx = T.inode(n)
                        d = T.th.dsub(T.th.cc(new), T.th.cc(T.children(n)))
                    else:
                        st = T.start(I, leaf=k)
                        leaf = T.ld(k)
                        LN = I.arena_set(st, LN, k, setfld(leaf, None, FIELDS["LeafNode"].index("elem"), "elem", new))
                        idx = T.leafi(k)
                        d = T.th.dsub(T.th.ec(new), T.th.ec(T.elem0(k)))
                    T.setarenas(I, st, IN, LN)
                    can = mk("const", "BTreeTrait::USE_DIFF", "bool")
                    for v, s in op.run([ref("self"), idx, can, some(d) if given else NONE], st):
                        heap_after(op, v, s, "", {k: content(new)} if what == "element" else None, order=what == "element")


def laws_of_callbacks(op):
    """documented laws: an element that reports itself removable is empty"""
    def hook(I, st, b, pol):
        if pol and b.op == "app" and b.args[0] == "can_remove":
            return st.facts.assume(eqi(rle_of(b.args[1]), num(0)))
        return True
    op.I.assume_hooks.append(hook)


def removable_gone(op, s, sink, keys, tag="", new=()):
    """no touched element that reports itself removable is still in the tree"""
    T, I = op.T, op.I
    C = s.facts.canon
    _, LN = T.arenas(s)
    base, over = I.arena_parts(LN)
    there = []
    for k in keys:
        c = I.arena_get(s, LN, k)
        if c is DEAD or T.gone(k, base):
            continue
        there.append((k, C(fn(c, "LeafNode", "elem"))))
    for l in over:
        if l.op == "w" and l.args[1] is not DEAD and any(C(fn(l.args[1], "LeafNode", "elem")) is C(x) for x in new):
            there.append((l.args[0], C(fn(l.args[1], "LeafNode", "elem"))))
    for k, e in there:
        if e.op in ("fld", "nd") and e is C(T.elem0(k)):
            continue
        r = s.facts.value(mk("app", "can_remove", e))
        if r is None:
            # never asked: it may well be removable
            s2 = s.copy()
            r = I.assume(s2, mk("app", "can_remove", e)) and feasible(s2)
        sink.put("C16", "an element that reports itself removable leaves the tree: " + op.label + tag,
                 "bad" if r and clean_path(s) else "ok" if not r else "open", "leaf %s keeps %s" % (k, e))


@part(*HEAP)
def update_leaf(prog, rep, sink):
    for th in THEORIES:
        with OneOp(prog, rep, sink, th(), "update_leaf") as op:
            T, I = op.T, op.I
            laws_of_callbacks(op)
            k, f = sym("k"), sym("f")
            st = T.start(I, leaf=k)
            e0 = T.elem0(k)
            e1 = mk("app", "after", f, e0)
            ret = mk("app", "ret", f, e0)
            told = fld(ret, None, 0, "0")
            same = st.copy()
            def quiet(I, s, b, pol):
                if b is told and not pol:
                    if T.th.use_diff:
                        return s.facts.assume(eqi(rle_of(e1), rle_of(e0)))
                    s.facts._merge(mk("app", "ec", e1), mk("app", "ec", e0))
                return True
            I.assume_hooks.append(quiet)
            n1, n2 = (fld(ret, None, i, str(i)) for i in (1, 2))
            for v, s in op.run([ref("self"), mk("rec", "LeafIndex", None, (k,)), f], st):
                want = list(content(e1))
                exp = [{k: want}]
                for n in (n1, n2):
                    if s.facts.variant(n) != "None":
                        want = want + content(fld(n, "Some", 0, "0"))
                        exp.append({k: want})
                heap_after(op, v, s, "", exp)
                removable_gone(op, s, sink, [k], new=[fld(n, "Some", 0, "0") for n in (n1, n2) if s.facts.variant(n) == "Some"])
                if v.op == "rec":
                    reported(op, s, v.args[2][1])
                    _, LN = T.arenas(s)
                    there = I.arena_get(s, LN, k) is not DEAD and not T.gone(k, I.arena_parts(LN)[0])
                    op.judge("C05", "the operation tells whether the element is still there", s, v.args[2][0], TRUE if there else FALSE)


def decide_bool(I, s, conj):
    """[(value of the conjunction, state)]"""
    out = []
    work = [(s, 0)]
    while work:
        x, i = work.pop()
        if i == len(conj):
            out.append((TRUE, x))
            continue
        for v, y in I.split_bool(x, conj[i]):
            if not feasible(y):
                continue
            if v:
                work.append((y, i + 1))
            else:
                out.append((FALSE, y))
    return out


def same_bool(op, pid, rule, s, got, conj):
    """got is the conjunction of conj"""
    I = op.I
    for want, x in decide_bool(I, s, conj):
        for v, y in I.split_bool(x, x.facts.canon(got)):
            if feasible(y):
                op.sink.put(pid, rule + ": " + op.label, "ok" if v is (want is TRUE) else "bad" if clean_path(y) else "open",
                            "%s instead of %s" % (v, conj))


def descent(op, s, arg, res):
    """the search goes down through the child each level's finder chose, and reports that element"""
    T, I, sink = op.T, op.I, op.sink
    fs = [e for e in s.log if e[0] == "find_node"]
    cs = [e for e in s.log if e[0] == "confirm"]
    if not fs or len(cs) != 1:
        op.judge_known("C08", "the search asks every level once and the element once", s, False)
        return
    C = s.facts.canon
    q = mk("app", "qinit", arg)
    want = T.children(T.R)
    for e in fs:
        op.judge("C08", "the search starts with a new finder and carries it on", s, e[1], q)
        op.judge("C08", "each level is asked about the children of the chosen child", s, C(e[2]), C(want))
        q = mk("app", "qnext", q, arg, C(e[2]))
        at = fn(I.seq_get(s, C(e[2]), fld(e[4], None, 0, "index")), "Child", "arena")
        k = C(key_of(C(at), "Internal"))
        want = T.children(k)
    k = C(key_of(C(at), "Leaf"))
    e = cs[0]
    op.judge("C08", "the search starts with a new finder and carries it on", s, e[1], q)
    op.judge("C08", "the element asked is the chosen child of the last level", s, e[2], T.elem0(k))
    c = F(res, "QueryResult", "cursor")
    gk, off = cursor_of(c)
    op.judge("C08", "the element reported is the one asked", s, gk, k)
    op.judge("C08", "the offset reported is the one the element answers", s, off, fld(e[4], None, 0, "0"))
    found = [fld(x[4], None, FIELDS["FindResult"].index("found"), "found") for x in fs] + [fld(e[4], None, 1, "1")]
    same_bool(op, "C08", "found is reported when every level and the element found it", s, F(res, "QueryResult", "found"), found)


def search_part(name):
    def f(prog, rep, sink):
        with OneOp(prog, rep, sink, Diff(), name, unroll=3) as op:
            T, I = op.T, op.I
            q = sym("q")
            st = T.start(I)
            for v, s in op.run([ref("self"), mkref(("O", q), ())], st):
                unchanged(op, s, "")
                if name == "query_with_finder_return":
                    v = fld(v, None, 0, "0")
                vn = s.facts.variant(v)
                e = s.facts.value(eqi(length(T.children(T.R)), num(0)))
                if vn == "None":
                    op.judge_known("C08", "the answer is empty only for an empty tree", s, e)
                elif vn == "Some":
                    op.judge_known("C20", "an empty tree answers nothing", s, None if e is None else not e)
                    descent(op, s, mk("deref", q), fld(v, "Some", 0, "0"))
    f.__name__ = name
    f.__doc__ = "the finder is led down to the element it chooses"
    return part("C08", "C20", "C21")(f)


query = search_part("query")
query_with_finder_return = search_part("query_with_finder_return")


@part(*LACK)
def try_reduce_levels(prog, rep, sink):
    """a root with a single inner node for child is replaced by that node"""
    with OneOp(prog, rep, sink, Diff(), "try_reduce_levels", unroll=3) as op:
        T, I = op.T, op.I
        st = T.start(I)
        for v, s in op.run([ref("self")], st):
            heap_after(op, v, s, "")


@part("C08", *HEAP)
def update_leaf_by_search(prog, rep, sink):
    """the search is followed down, the summaries on the way back up; rebalancing of single layers is judged on its own"""
    def layer(I, args, st, site, t, body):
        a = st.facts.canon(args[1])
        st.ev("layer", a, *T.arenas(st))
        return [(mk("app", "lack", num(len(st.log))), st)]

    def reduce(I, args, st, site, t, body):
        st.ev("layer", T.inode(T.R), *T.arenas(st))
        return [(UNIT, st)]
    with OneOp(prog, rep, sink, Diff(), "update_leaf_by_search", {"BTree::handle_lack_single_layer": layer, "BTree::try_reduce_levels": reduce}, unroll=3) as op:
        T, I = op.T, op.I
        laws_of_callbacks(op)
        q, f = sym("q"), sym("f")

        def is_ret(t):
            return t.op == "app" and t.args[0] == "ret" and t.args[1] is f

        def caller(I, s, b, pol):
            # what the operation demands of the caller's function
            if b.op == "isvar" and b.args[0].op == "fld" and b.args[0].args[2] in (1, 2) and b.args[0].args[0].op == "fld" and is_ret(b.args[0].args[0].args[0]):
                if ((b.args[1] == "Some") == pol) and (b.args[0].args[2] == 2 or removable(s, b.args[0].args[0].args[0])):
                    return False
            if b.op == "app" and b.args[0] == "can_remove" and b.args[1].op == "app" and b.args[1].args[0] == "after" and pol:
                r = mk("app", "ret", *b.args[1].args[1:])
                if s.facts.variant(fld(fld(r, "Some", 0, "0"), None, 1, "1")) == "Some":
                    return False
            return True

        def removable(s, r):
            return s.facts.value(mk("app", "can_remove", mk("app", "after", *r.args[1:]))) is True
        I.assume_hooks.append(caller)
        st = T.start(I)
        I.assume(st, le(num(1), length(T.children(T.R))))
        for v, s in op.run([ref("self"), mkref(("O", q), ()), f], st):
            uc = [e for e in s.log if e[0] == "usercall"]
            if len(uc) != 1:
                sink.all("the caller's function is called once: " + op.label, "bad" if clean_path(s) else "open", "%d calls" % len(uc))
                continue
            e0, res = (s.facts.canon(x) for x in uc[0][2])
            descent(op, s, mk("deref", q), res)
            k = s.facts.canon(cursor_of(F(res, "QueryResult", "cursor"))[0])
            T.leaves = [k]
            e1, r = mk("app", "after", f, *uc[0][2]), mk("app", "ret", f, *uc[0][2])
            op.judge("C08", "the element handed to the caller is the one the search names", s, T.elem0(k), e0)
            vn = s.facts.variant(r)
            want = list(content(e1))
            exp = [{k: want}]
            if vn == "None":
                I.assume(s, eqi(rle_of(e1), rle_of(e0)))
            else:
                p = fld(r, "Some", 0, "0")
                n1 = fld(p, None, 1, "1")
                d = sub(rle_of(e1), rle_of(e0))
                if s.facts.variant(n1) == "Some":
                    x = fld(n1, "Some", 0, "0")
                    d = add(d, rle_of(x))
                    exp.append({k: want + content(x)})
                if not s.facts.define(fld(p, None, 0, "0"), d):
                    continue
            layers = [e for e in s.log if e[0] == "layer"]

            def at_layers(out, view):
                for e in layers:
                    w = View(T, I, view.s, e[2:4])
                    if s.facts.variant(e[1]) == "Leaf":
                        continue
                    n = w.C(key_of(e[1], "Internal"))
                    if n is w.C(T.R):
                        continue
                    got, q, explicit = w.entry_of(n)
                    if got is not None:
                        out.judge("C02", "a layer is repaired when the summaries below it are right", J.equal(I, view.s, got, T.th.cc(w.children(n))),
                                  "node %s: stored %s, children sum to %s" % (n, got, w.children(n)))
            heap_after(op, v, s, "", exp, empty=[key_of(s.facts.canon(e[1]), "Internal") for e in layers if s.facts.variant(e[1]) != "Leaf"], extra=at_layers)
            if vn != "None":
                removable_gone(op, s, sink, [k])
            if v.op == "rec":
                reported(op, s, v.args[2][1])
                there = I.arena_get(s, T.arenas(s)[1], k) is not DEAD
                op.judge("C05", "the returned cursor names the element while it is there", s, v.args[2][0], some(F(res, "QueryResult", "cursor")) if there else NONE)
