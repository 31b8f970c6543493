"""The rope over its tree: every edit against the splice it stands for.

The text is a ghost sequence. An element stands for the stretch of the text at its position; the tree operations
are represented by what they do to the text (they are judged themselves elsewhere), the text buffer by the bytes
it holds (C11). What is judged: the text after an edit, the stored length, the remembered position."""
from .p_nav import *
from .p_misc import ROPE, HOMES
from .treejudge import *

GB = "generic_impl::gap_buffer::GapBuffer"
RCUR = "generic_impl::rope::Cursor"
LF = "generic_impl::len_finder::LengthFinder"
TEXT = sym("TEXT")


def gb(b):
    return mk("app", "gb", mkseq([b]) if b.op != "seq" else b)


class Text(Tree):
    """an arbitrary rope"""

    def __init__(self, *a):
        super().__init__(*a)
        self.text0 = mkseq([sl(TEXT, num(0), length(TEXT))])
        self.N = length(TEXT)
        self.text_of = {self.LN0: self.text0}       # leaf arena -> text when it was formed
        self.cap = next((c["v"] for c in self.P.d["consts"] if c["path"].endswith("MAX_STRING_SIZE") and c.get("v")), None)
        self.rope = val("self")
        self.cursor0 = fn(self.rope, ROPE, "cursor")
        self.n = 0

    def remembered(self):
        """key of the remembered element"""
        return fld(fn(fld(self.cursor0, "Some", 0, "0"), RCUR, "leaf"), None, 0, "0")

    def pos(self, k, LN):
        return mk("app", "pos", LN, k)

    def rule_fld(self, base, variant, idx, name):
        if base is self.me and name == "root_cache":
            return self.N
        if name == "pos" and base is fld(self.cursor0, "Some", 0, "0"):
            return self.pos(self.remembered(), self.LN0)
        if name == "cache" and base.op == "el":
            c = self.is_children(base.args[0])
            if c is not None:
                a = fn(base, "Child", "arena")
                if self.rule_variant(a) == "Leaf":
                    return self.ec(key_of(a, "Leaf"), self.pairs[c[0]])
        return super().rule_fld(base, variant, idx, name)

    def ec(self, k, LN):
        return rle_of(fn(self.ld(k, LN), "LeafNode", "elem"))

    def rule_atom(self, a):
        if a.op == "app" and a.args[0] == "pos":
            LN, k = a.args[1:]
            return [a, sub(sub(length(self.text_of[LN]), a), self.ec(k, LN))]
        if a is self.N:
            return [sub(num(2 ** 62), a)]
        r = super().rule_atom(a)
        if a.op == "app" and a.args[0] == "rle" and is_fld(a.args[1], "elem") and a.args[1].args[0].op == "nd" and a.args[1].args[0].args[0] in self.text_of:
            r = list(r) + [sub(a, num(1))] + ([sub(num(self.cap), a)] if self.cap else [])
        return r

    def rule_alive(self, I, st, v):
        a, k = v.args
        if a is self.LN0 and k is self.remembered():
            return TRUE
        if a in self.text_of and k.op == "app" and k.args[0] == "at" and k.args[1] is a:
            return TRUE
        return super().rule_alive(I, st, v)

    def hook(self, I, st, b, pol):
        if b.op == "isvar" and b.args[0] is self.cursor0 and (b.args[1] == "Some") == pol:
            # a remembered element holds text
            if not st.facts.assume(le(num(1), self.N)):
                return False
        return super().hook(I, st, b, pol)

    # -------------------------------------------------------- text
    def bytes(self, st, e):
        """what an element holds"""
        e = st.facts.canon(e)
        if e.op == "app" and e.args[0] == "gb":
            return e.args[1]
        if is_fld(e, "elem") and e.args[0].op == "nd" and e.args[0].args[0] in self.text_of:
            LN, k = e.args[0].args
            p = self.pos(k, LN)
            return mkseq([sl(self.text_of[LN], p, add(p, rle_of(e)))])
        raise Limit("bytes of %s" % e)

    def now_text(self, st):
        for e in reversed(st.log):
            if e[0] == "text":
                return e[1]
        return self.text0

    def base(self, st):
        return self.I.arena_parts(self.arenas(st)[1])[0]

    def forms(self, st):
        """leaf arenas and edits in the order they came up"""
        return [("base", self.LN0)] + [e for e in st.log if e[0] in ("base", "edit")]

    def pos_now(self, I, st, k):
        """[(position of the element now or None when unknown, state)]"""
        k = st.facts.canon(k)
        known_ = None
        work = [(None, False, st)]
        for e in self.forms(st):
            nxt = []
            for p, k0, s in work:
                if e[0] == "base":
                    LN = e[1]
                    if k is s.facts.canon(self.remembered()) and LN is self.LN0 or k.op == "app" and k.args[0] == "at" and k.args[1] is LN \
                            or self.child_key(k) is not None and self.pairs.get(self.child_key(k)[0]) is LN:
                        nxt.append((self.pos(k, LN), LN, s))
                    else:
                        nxt.append((p, k0, s))
                    continue
                _, at, rem, ins, who, kind = e
                if p is None:
                    nxt.append((p, k0, s))
                    continue
                if who is not None and s.facts.canon(who) is k:
                    if kind != "before":
                        nxt.append((p, k0, s))
                        continue
                    # what is put right before an element may join it, unless there is too much of it
                    for much, s1 in I.split_bool(s, lt(num(self.cap), add(ins, self.ec(k, k0)))):
                        nxt.append((add(p, ins) if much else None, k0, s1))
                    continue
                n = self.ec(k, k0)
                for left, s1 in I.split_bool(s, le(add(at, rem), p)):
                    if left:
                        nxt.append((add(p, sub(ins, rem)), k0, s1))
                        continue
                    for right, s2 in I.split_bool(s1, le(add(p, n), at)):
                        nxt.append((p if right else None, k0, s2))
            work = nxt
        return [(p, s) for p, _, s in work]

    def splice(self, st, at, rem, new, who, kind="in"):
        t = self.now_text(st)
        st.ev("edit", at, rem, length(mkseq(new)), who, kind)
        st.ev("text", mkseq([sl(t, num(0), at)] + list(new) + [sl(t, add(at, rem), length(t))]))

    def set_cache(self, I, st, c):
        root, path = self.home
        I.write(st, root, path + (("f", None, FIELDS["BTree"].index("root_cache"), "root_cache"),), c)

    def cache(self, st):
        return st.facts.canon(fn(self.now(st), "BTree", "root_cache"))

    def renew(self, I, st):
        """the tree has another shape now"""
        self.n += 1
        IN, LN = mk("epoch", "rin", self.n), mk("epoch", "rleaf", self.n)
        self.pairs[IN] = LN
        self.text_of[LN] = self.now_text(st)
        self.setarenas(I, st, IN, LN)
        st.ev("base", LN)
        return LN

    def held(self, st, k):
        """bytes of an element as the text last knew them"""
        for e in reversed(st.log):
            if e[0] == "synced" and st.facts.canon(e[1]) is k:
                return e[2]
            if e[0] == "base":
                break
        return self.bytes(st, fn(self.ld(k, self.base(st)), "LeafNode", "elem"))

    def elem_changed(self, I, st, k, new):
        """the element now holds `new`: [(change of length, state)]"""
        k = st.facts.canon(k)
        old = self.held(st, k)
        out = []
        for p, s in self.pos_now(I, st, k):
            if p is None:
                raise Limit("position of %s" % k)
            self.splice(s, p, length(old), [new], k)
            s.ev("synced", k, new)
            out.append((sub(length(new), length(old)), s))
        return out

    def sync(self, I, st):
        """elements rewritten in place change the text: [state]"""
        work = [st]
        for l in I.arena_parts(self.arenas(st)[1])[1]:
            nxt = []
            for s in work:
                k = s.facts.canon(l.args[0])
                if l.op != "w":
                    raise Limit("elements rewritten in a loop")
                if l.args[1] is DEAD:
                    nxt.append(s)
                    continue
                b = self.bytes(s, fn(l.args[1], "LeafNode", "elem"))
                if J.equal(I, s, b, self.held(s, k)) is True:
                    nxt.append(s)
                else:
                    nxt += [x for _, x in self.elem_changed(I, s, k, b)]
            work = nxt
        return work


# ------------------------------------------------------------------ text buffers, by the bytes they hold
def bounds(I, st, r, n):
    """[(start, end, state)] of a range inside n"""
    name = str(r.args[0]).split("::")[-1] if r.op == "rec" else None
    a = r.args[2] if r.op == "rec" else ()
    lo, hi = num(0), n
    if name == "Range":
        lo, hi = a
    elif name == "RangeFrom":
        lo = a[0]
    elif name == "RangeTo":
        hi = a[0]
    elif name == "RangeToInclusive":
        hi = add(a[0], num(1))
    elif name == "RangeInclusive":
        lo, hi = a[0], add(a[1], num(1))
    elif name == "I:bounds":
        x, y = a
        if x.args[1] != "Unbounded":
            lo = add(x.args[2][0], num(1 if x.args[1] == "Excluded" else 0))
        if y.args[1] != "Unbounded":
            hi = add(y.args[2][0], num(1 if y.args[1] == "Included" else 0))
    elif name != "RangeFull":
        raise Limit("range %s" % r)
    out = []
    for i, s in I.split_bool(st, le(hi, n)):
        e = hi if i else n
        for j, s2 in I.split_bool(s, le(lo, e)):
            out.append((lo if j else e, e, s2))
    return out


def buffers(T):
    CAP = num(T.cap)
    P = GB + "::"
    K = {}

    def k(*names):
        def f(g):
            for n in names:
                K[n if n.startswith("<") else P + n] = g
            return g
        return f

    def tr(trait, name):
        return "<%s as rle::%s>::%s" % (GB, trait, name)

    def get(I, st, r):
        return T.bytes(st, I.deref(st, r))

    def put(I, st, r, b):
        q, p = I.target(st, r)
        I.write(st, q, p, gb(mkseq(b)))

    def arg(I, st, a):
        """bytes of an argument"""
        b = I.deref(st, a) if a.op == "ref" else a
        b = st.facts.canon(b)
        return b if b.op == "seq" else mkseq([sl(b, num(0), length(b))])

    @k("new", "<%s as std::default::Default>::default" % GB)
    def new(I, args, st, site, t, body):
        return [(gb(EMPTY), st)]

    @k("len", tr("HasLength", "rle_len"))
    def len_(I, args, st, site, t, body):
        return [(length(get(I, st, args[0])), st)]

    @k("capacity")
    def capacity(I, args, st, site, t, body):
        return [(CAP, st)]

    @k(tr("CanRemove", "can_remove"))
    def can_remove(I, args, st, site, t, body):
        return [(eqi(length(get(I, st, args[0])), num(0)), st)]

    @k("<%s as std::clone::Clone>::clone" % GB)
    def clone(I, args, st, site, t, body):
        return [(gb(get(I, st, args[0])), st)]

    def insert(I, args, st, site, at, new_):
        old = get(I, st, args[0])
        n = length(old)
        out = []
        for fits, s in I.split_bool(st, le(add(n, length(new_)), CAP)):
            if not fits:
                out.append((err(UNIT), s))
                continue
            if not I.must(s, [le(at, n)], site, "GapBuffer::insert_bytes"):
                continue
            put(I, s, args[0], [sl(old, num(0), at), new_, sl(old, at, n)])
            out.append((ok(UNIT), s))
        return out

    @k("insert_bytes")
    def insert_bytes(I, args, st, site, t, body):
        return insert(I, args, st, site, args[1], arg(I, st, args[2]))

    @k("push_bytes")
    def push_bytes(I, args, st, site, t, body):
        return insert(I, args, st, site, length(get(I, st, args[0])), arg(I, st, args[1]))

    @k("insert_bytes_pair")
    def insert_bytes_pair(I, args, st, site, t, body):
        a, b = args[2].args[2]
        return insert(I, args, st, site, args[1], mkseq([arg(I, st, a), arg(I, st, b)]))

    @k("delete")
    def delete(I, args, st, site, t, body):
        out = []
        old = get(I, st, args[0])
        for a, b, s in bounds(I, st, args[1], length(old)):
            put(I, s, args[0], [sl(old, num(0), a), sl(old, b, length(old))])
            out.append((UNIT, s))
        return out

    @k(tr("Sliceable", "slice_"))
    def slice_(I, args, st, site, t, body):
        out = []
        old = get(I, st, args[0])
        for a, b, s in bounds(I, st, args[1], length(old)):
            put(I, s, args[0], [sl(old, a, b)])
            out.append((UNIT, s))
        return out

    @k(tr("Sliceable", "_slice"))
    def _slice(I, args, st, site, t, body):
        old = get(I, st, args[0])
        return [(gb(mkseq([sl(old, a, b)])), s) for a, b, s in bounds(I, st, args[1], length(old))]

    @k(tr("Sliceable", "split"))
    def split(I, args, st, site, t, body):
        old = get(I, st, args[0])
        if not I.must(st, [le(args[1], length(old))], site, "GapBuffer::split"):
            return []
        put(I, st, args[0], [sl(old, num(0), args[1])])
        return [(gb(mkseq([sl(old, args[1], length(old))])), st)]

    @k(tr("Mergeable", "can_merge"))
    def can_merge(I, args, st, site, t, body):
        return [(le(add(length(get(I, st, args[0])), length(get(I, st, args[1]))), CAP), st)]

    @k(tr("Mergeable", "merge_right"), tr("Mergeable", "merge_left"))
    def merge(I, args, st, site, t, body):
        a, b = get(I, st, args[0]), get(I, st, args[1])
        if not I.must(st, [le(add(length(a), length(b)), CAP)], site, "GapBuffer merge"):
            return []
        put(I, st, args[0], [a, b] if body.path.endswith("merge_right") else [b, a])
        return [(UNIT, st)]

    @k("from_str")
    def from_str(I, args, st, site, t, body):
        b = arg(I, st, args[0])
        n = length(b)
        out = []
        cut = [num(0)]
        s = st
        for i in range(4):
            for last, x in I.split_bool(s, eqi(cut[-1], n)):
                if last:
                    q = mkseq([unit(gb(mkseq([sl(b, x_, y_)]))) for x_, y_ in zip(cut, cut[1:])])
                    out.append((mk("rec", "I:seq", None, (mk("mode", "val"), q, num(0), num(i))), x))
                elif i < 3:
                    c = mk("app", "chunk", b, num(i))
                    if all(I.assume(x, y) for y in (lt(cut[-1], c), le(c, n), le(sub(c, cut[-1]), CAP))):
                        cut = cut + [c]
                        s = x
                        break
            else:
                break
        return out
    return K


# ------------------------------------------------------------------ the tree, by what it does to the text
def key_arg(st, a):
    return st.facts.canon(fld(a, None, 0, "0"))


def bad_handle(I, T, st, k, site, what):
    if I.arena_get(st, T.arenas(st)[1], k) is DEAD:
        I.panic_states.append((what, site, st))
        return True
    return False


def tree_ops(T):
    K = {}

    def k(name):
        def f(g):
            K["BTree::" + name] = g
            return g
        return f

    def locate(I, st, i, finder=False):
        """the element at a position of the text: [(key, offset, state)]"""
        out = []
        for s in T.sync(I, st):
            base = T.base(s)
            if any(l.op != "w" or True for l in I.arena_parts(T.arenas(s)[1])[1]):
                base = T.renew(I, s)
            t = T.now_text(s)
            n = length(t)
            for empty, s1 in I.split_bool(s, eqi(n, num(0))):
                if empty:
                    out.append((None, None, s1))
                    continue
                j = mk("app", "at", base, i)
                p = T.pos(j, base)
                off = sub(i, p)
                if not all(I.assume(s1, x) for x in (le(i, n), le(p, i), le(i, add(p, T.ec(j, base))))):
                    raise Limit("query past the end")
                for end, s2 in I.split_bool(s1, eqi(i, n)):
                    if I.assume(s2, lt(i, add(p, T.ec(j, base))), not end):
                        out.append((j, off, s2))
        return out

    def qres(j, off, s):
        d = {"cursor": mkcursor(j, off), "found": mk("app", "found", j)}
        return mk("rec", "QueryResult", None, tuple(d[x] for x in FIELDS["QueryResult"]))

    @k("query")
    def query(I, args, st, site, t, body):
        return [(NONE if j is None else some(qres(j, off, s)), s) for j, off, s in locate(I, st, I.deref(st, args[1]))]

    @k("query_with_finder_return")
    def query_f(I, args, st, site, t, body):
        out = []
        i = I.deref(st, args[1])
        for j, off, s in locate(I, st, i):
            LN = T.base(s)
            IN = next(a for a, b in T.pairs.items() if b is LN)
            if j is None:
                d = {"left": i, "slot": num(0), "parent": NONE}
                out.append((tup(NONE, mk("rec", LF, None, tuple(d[x] for x in FIELDS[LF]))), s))
                continue
            q = some(qres(j, off, s))
            p, slot = T.lpar(j, LN), T.lslot(j, LN)
            for at_root in (True, False):
                for first, s2 in I.split_bool(s.copy(), eqi(slot, num(0))):
                    if not first:
                        a = fn(el(T.children(p, IN), sub(slot, num(1))), "Child", "arena")
                        before = key_of(a, "Leaf")
                        if not I.assume(s2, eqi(add(T.pos(before, LN), T.ec(before, LN)), T.pos(j, LN))):
                            continue
                    d = {"left": off, "slot": slot, "parent": NONE if at_root else some(p)}
                    if not I.assume(s2, eq(p, T.R), at_root):
                        continue
                    out.append((tup(q, mk("rec", LF, None, tuple(d[x] for x in FIELDS[LF]))), s2))
        return out

    def on_element(I, st, j, f, more, site, t):
        """a function is run on the element: [(result, bytes now, state)]"""
        IN, LN = T.arenas(st)
        cell = I.arena_get(st, LN, j)
        tmp = ("T", "elem", num(len(st.log)))
        st.store[tmp] = gb(T.bytes(st, fn(cell, "LeafNode", "elem")))
        out = []
        for r, s in I.call_value(f, [mkref(tmp, ())] + more, st, site, t):
            out.append((r, T.bytes(s, s.store.pop(tmp)), s))
        return out

    def parts(I, s, n1, n2):
        """[(bytes of the new elements, state)]"""
        return [((T.bytes(s2, a) if a is not None else None, T.bytes(s2, b) if b is not None else None), s2)
                for a, s1 in T.optional(I, s, n1) for b, s2 in T.optional(I, s1, n2)]

    def settle(I, s, j, now, n1, n2, diff):
        """the element holds `now`, new elements follow: [(is the element still there, state)]"""
        out = []
        new = mkseq([now] + [x for x in (n1, n2) if x is not None])
        for d, x in T.elem_changed(I, s, j, new):
            c = T.cache(x)
            for here, y in I.split_bool(x, lt(num(0), length(now))):
                if here:
                    work = [(now, y)]
                else:
                    work = []
                    for z, y1 in [(v, y2) for v in (n1, n2) if v is not None for y2 in (y.copy(),) if J.entails(y2, sub(length(v), num(1))) is not False][:1]:
                        for full, y2 in I.split_bool(y1, lt(num(0), length(z))):
                            work.append((z if full else None, y2))
                    if not work:
                        work = [(None, y)]
                for b, y in work:
                    T.set_cache(I, y, add(c, d if diff is None else diff))
                    base = T.base(y)
                    p = [q for q, _ in T.pos_now(I, y.copy(), j)]
                    LN = T.renew(I, y)
                    if b is not None:
                        I.assume(y, mk("app", "alive", T.ld(j, LN)))
                        if len(p) == 1 and p[0] is not None:
                            I.assume(y, eqi(T.pos(j, LN), p[0]))
                        I.assume(y, eqi(T.ec(j, LN), length(b)))
                    else:
                        I.setarena_dead(y, j) if hasattr(I, "setarena_dead") else T.setarenas(I, y, T.arenas(y)[0], I.arena_set(y, T.arenas(y)[1], j, DEAD))
                    out.append((TRUE if b is not None else FALSE, y))
        return out

    @k("update_leaf")
    def update_leaf(I, args, st, site, t, body):
        j = key_arg(st, args[1])
        if bad_handle(I, T, st, j, site, "a removed element is updated"):
            return []
        out = []
        for s0 in T.sync(I, st):
            for r, now, s in on_element(I, s0, j, args[2], [], site, t):
                told, o1, o2 = (fld(r, None, i, str(i)) for i in range(3))
                for (n1, n2), s1 in parts(I, s, o1, o2):
                    for upd, s2 in I.split_bool(s1, told):
                        more = n1 is not None or n2 is not None
                        for valid, s3 in settle(I, s2, j, now, n1, n2, None if upd or more else num(0)):
                            out.append((tup(valid, mk("app", "splitted")), s3))
        return out

    @k("update_leaf_by_search")
    def by_search(I, args, st, site, t, body):
        out = []
        for j, off, s0 in locate(I, st, I.deref(st, args[1])):
            if j is None:
                I.panic_states.append(("update in an empty tree", site, s0))
                continue
            c = mkcursor(j, off)
            for r, now, s in on_element(I, s0, j, args[2], [qres(j, off, s0)], site, t):
                for p, s1 in T.optional(I, s, r):
                    if p is None:
                        for valid, s2 in settle(I, s1, j, now, None, None, num(0)):
                            out.append((tup(some(c), mk("app", "splitted")), s2))
                        continue
                    diff, o1, o2 = (fld(p, None, i, str(i)) for i in range(3))
                    for (n1, n2), s2 in parts(I, s1, o1, o2):
                        for valid, s3 in settle(I, s2, j, now, n1, n2, diff):
                            out.append((tup(some(c) if valid is TRUE else NONE, mk("app", "splitted")), s3))
        return out

    @k("recursive_update_cache")
    def ruc(I, args, st, site, t, body):
        out = []
        idx = st.facts.canon(args[1])
        if st.facts.variant(idx) != "Leaf":
            raise Limit("summaries above %s" % idx)
        j = st.facts.canon(key_of(idx, "Leaf"))
        if bad_handle(I, T, st, j, site, "summary of a removed element requested"):
            return []
        b = T.bytes(st, fn(I.arena_get(st, T.arenas(st)[1], j), "LeafNode", "elem"))
        for d, s in T.elem_changed(I, st, j, b):
            for given, s1 in T.optional(I, s, args[3]):
                T.set_cache(I, s1, add(T.cache(s1), d if given is None else given))
                out.append((UNIT, s1))
        return out

    @k("remove_leaf")
    def remove_leaf(I, args, st, site, t, body):
        j = st.facts.canon(cursor_of(args[1])[0])
        out = []
        for s in T.sync(I, st):
            if I.arena_get(s, T.arenas(s)[1], j) is DEAD:
                out.append((NONE, s))
                continue
            old = T.held(s, j)
            for d, x in T.elem_changed(I, s, j, EMPTY):
                T.set_cache(I, x, add(T.cache(x), d))
                T.renew(I, x)
                T.setarenas(I, x, T.arenas(x)[0], I.arena_set(x, T.arenas(x)[1], j, DEAD))
                out.append((some(gb(old)), x))
        return out

    def items(I, st, it):
        it = st.facts.canon(it)
        if it.op == "rec" and it.args[0] == "I:seq" and it.args[2][0] is mk("mode", "val"):
            _, q, lo, hi = it.args[2]
            out = []
            for g in segs(mkseq([sl(q, lo, hi)])):
                if g.op != "u":
                    raise Limit("items %s" % g)
                out.append(T.bytes(st, g.args[0]))
            return mkseq(out)
        if it.op == "seq" and all(g.op == "u" for g in segs(it)):
            return mkseq([T.bytes(st, g.args[0]) for g in segs(it)])
        if it.op == "rec" and it.args[0] == "Vec":
            return items(I, st, it.args[2][0])
        raise Limit("items of %s" % it)

    def put_in(I, st, at, new, who, kind):
        T.splice(st, at, num(0), [new], who, kind)
        T.set_cache(I, st, add(T.cache(st), length(new)))
        T.renew(I, st)

    @k("insert_many_by_cursor")
    def insert_many(I, args, st, site, t, body):
        out = []
        new = items(I, st, args[2])
        for s in T.sync(I, st):
            for c, s1 in T.optional(I, s, args[1]):
                if c is None:
                    if not I.must(s1, [eqi(length(T.now_text(s1)), num(0))], site, "insert_many_by_cursor without a place"):
                        continue
                    put_in(I, s1, num(0), new, None, "after")
                    out.append((UNIT, s1))
                    continue
                j, off = cursor_of(c)
                j = s1.facts.canon(j)
                if bad_handle(I, T, s1, j, site, "insertion at a removed element"):
                    continue
                if not I.must(s1, [le(off, length(T.held(s1, j)))], site, "insert_many_by_cursor"):
                    continue
                for p, s2 in T.pos_now(I, s1, j):
                    if p is None:
                        raise Limit("position of %s" % j)
                    for start, s3 in I.split_bool(s2, eqi(off, num(0))):
                        put_in(I, s3, add(p, off), new, j, "before" if start else "after")
                        out.append((UNIT, s3))
        return out

    @k("insert_by_path")
    def insert_one(I, args, st, site, t, body):
        it = mk("rec", "I:seq", None, (mk("mode", "val"), mkseq([unit(args[2])]), num(0), num(1)))
        return [(mk("app", "placed"), s) for _, s in insert_many(I, [args[0], some(args[1]), it], st, site, t, body)]

    @k("push")
    def push(I, args, st, site, t, body):
        out = []
        for s in T.sync(I, st):
            put_in(I, s, length(T.now_text(s)), T.bytes(s, args[1]), None, "after")
            out.append((mk("app", "placed"), s))
        return out

    @k("prepend")
    def prepend(I, args, st, site, t, body):
        out = []
        for s in T.sync(I, st):
            put_in(I, s, num(0), T.bytes(s, args[1]), None, "after")
            out.append((mk("app", "placed"), s))
        return out

    @k("is_empty")
    def is_empty(I, args, st, site, t, body):
        return [(eqi(length(T.now_text(s)), num(0)), s) for s in T.sync(I, st)]

    def drain(I, args, st, site, t, body):
        out = []
        for s in T.sync(I, st):
            for a, s1 in T.optional(I, s, args[1]):
                for b, s2 in T.optional(I, s1, args[2]):
                    if a is None or b is None:
                        if not I.must(s2, [eqi(length(T.now_text(s2)), num(0))], site, "Drain::new without a place"):
                            continue
                        out.append((mk("app", "drained"), s2))
                        continue
                    ps = []
                    for x in (a, b):
                        j, off = cursor_of(F(x, "QueryResult", "cursor"))
                        ps.append((s2.facts.canon(j), off))
                    for p, s3 in T.pos_now(I, s2, ps[0][0]):
                        for q, s4 in T.pos_now(I, s3, ps[1][0]):
                            if p is None or q is None:
                                raise Limit("where the drain starts")
                            lo, hi = add(p, ps[0][1]), add(q, ps[1][1])
                            if not I.must(s4, [le(lo, hi)], site, "Drain::new"):
                                continue
                            n = sub(hi, lo)
                            T.splice(s4, lo, n, [], None)
                            T.set_cache(I, s4, sub(T.cache(s4), n))
                            T.renew(I, s4)
                            out.append((mk("app", "drained"), s4))
        return out
    K["iter::Drain::new"] = drain
    return K


class RopeOp(NavOp):
    def __init__(self, prog, rep, sink, name, **kw):
        kw.setdefault("inside", HOMES[ROPE])
        super().__init__(prog, rep, sink, "Rope::" + name, **kw)
        self.T = Text(prog, rep, Diff(), kw["inside"])

    def __enter__(self):
        super().__enter__()
        self.I.contracts.update(buffers(self.T))
        for k in list(self.I.contracts):
            if k.startswith("BTree::"):
                del self.I.contracts[k]
        self.I.contracts.update(tree_ops(self.T))
        self.body = self.T.P.find(self.name) or self.T.P.find("generic_impl::rope::" + self.name)
        return self


def text_is(op, s0, want, tag=""):
    """the text, the stored length and the remembered position after an edit; want(state) -> [(sequence, state)]"""
    T, I, sink = op.T, op.I, op.sink
    for s1 in T.sync(I, s0):
        for w, s in want(s1):
            if not feasible(s):
                continue
            got = T.now_text(s)
            r = J.equal(I, s, got, w)
            sink.put("C10", "the text is spliced where asked: " + op.label + tag, "ok" if r is True else "bad" if r is False else "open", "text %s, want %s" % (got, w))
            r = J.entails_eq(s, T.cache(s), length(w))
            sink.put("C10", "the length follows the text: " + op.label + tag, "ok" if r is True else "bad" if r is False else "open",
                     "length %s of %s" % (T.cache(s), w))
            remembered(op, s, tag)


def remembered(op, s0, tag):
    T, I, sink = op.T, op.I, op.sink
    rule = "the remembered position is that of its element: " + op.label + tag
    c = fn(I.deref(s0, ref("self")), ROPE, "cursor")
    for p, s in T.optional(I, s0, c):
        if not feasible(s):
            continue
        if p is None:
            sink.put("C10", rule, "ok")
            continue
        k = s.facts.canon(fld(fn(p, RCUR, "leaf"), None, 0, "0"))
        if I.arena_get(s, T.arenas(s)[1], k) is DEAD:
            sink.put("C10", rule, "bad" if clean_path(s) else "open", "element %s was removed" % k)
            continue
        for at, x in T.pos_now(I, s, k):
            if not feasible(x):
                continue
            if at is None:
                sink.put("C10", rule, "open", "position of %s" % k)
                continue
            told = fn(p, RCUR, "pos")
            r = J.entails_eq(x, told, at)
            sink.put("C10", rule, "ok" if r is True else "bad" if r is False else "open", "%s remembered, element %s is at %s" % (told, k, at))


@part("C10", seconds=300)
def Rope_insert(prog, rep, sink):
    """text is put in at the position, what is around it stays"""
    with RopeOp(prog, rep, sink, "insert") as op:
        T, I = op.T, op.I
        i, x = sym("index"), val("text")
        st = T.start(I)
        I.assume(st, le(i, T.N))
        for v, s in op.run([ref("self"), i, ref("text")], st):
            text_is(op, s, lambda s: [(mkseq([sl(TEXT, num(0), i), sl(x, num(0), length(x)), sl(TEXT, i, T.N)]), s)])


@part("C10", seconds=300)
def Rope_delete_range(prog, rep, sink):
    """the range goes, what is around it stays"""
    a, b = sym("start"), sym("end")
    B = "std::ops::Bound"
    exc = (rec(B, "Excluded", a), rec(B, "Included", b)), (rec(B, "Excluded", a), rec(B, "Unbounded"))
    for name, fields in (("I:bounds", exc[0]), ("I:bounds", exc[1]), ("Range", (a, b)), ("RangeInclusive", (a, b)), ("RangeFrom", (a,)), ("RangeTo", (b,)), ("RangeToInclusive", (b,)), ("RangeFull", ())):
        with RopeOp(prog, rep, sink, "delete_range", label="Rope::delete_range of a " + name.replace("I:", "pair of ")) as op:
            T, I = op.T, op.I
            st = T.start(I)
            r = mk("rec", name if ":" in name else "std::ops::" + name, None, fields)
            for v, s in op.run([ref("self"), r], st):
                text_is(op, s, lambda s: [(mkseq([sl(TEXT, num(0), lo), sl(TEXT, hi, T.N)]), y) for lo, hi, y in bounds(I, s, r, T.N)])


@part("C10")
def Rope_len(prog, rep, sink):
    """the length is that of the text"""
    for name in ("len", "is_empty"):
        with RopeOp(prog, rep, sink, name) as op:
            T, I = op.T, op.I
            for v, s in op.run([ref("self")], T.start(I)):
                if name == "len":
                    r = J.entails_eq(s, v, T.N)
                    sink.put("C10", "the length is that of the text: Rope::len", "ok" if r is True else "bad" if r is False else "open", "%s" % v)
                else:
                    same_bool(op, "C10", "only a rope without text is empty", s, v, [eqi(T.N, num(0))])
                unchanged(op, s, "")
