"""Text buffer of the rope: every operation against its meaning on the byte sequence it stands for.

The abstraction function is the public observer `as_bytes`: a buffer denotes the concatenation of
the two slices it returns. Each operation is interpreted abstractly on an arbitrary buffer, and the
denotation of its result is compared with the specified sequence."""
from .terms import *
from . import terms as TM
from .engine import Interp, State, mkref, Limit, Site
from .judge import equal, entails, entails_eq, clean_path
from .util import guarded

TY = "generic_impl::gap_buffer::GapBuffer"


class Gap:
    def __init__(self, prog, rep):
        self.P = prog
        self.rep = rep
        self.I = None
        self.cap = None

    def interp(self):
        I = Interp(self.P)
        I.panic_states = []
        return I

    def m(self, name, trait=None):
        return self.P.method(TY, name, trait)

    def setup(self):
        """shape of as_bytes: (buffer[..x], buffer[y..]) with x, y over the fields"""
        b = self.m("as_bytes")
        if b is None:
            return False
        self.asb = b
        adt = [a for a in self.P.d["adts"] if a["path"] == TY][0]
        self.arrays = []
        for i, f in enumerate(adt["variants"][0]["fields"]):
            ty = f["ty"]
            if ty.startswith("[") and ";" in ty:
                n = ty.rsplit(";", 1)[1].strip(" ]")
                if not n.isdigit():
                    v = [c["v"] for c in self.P.d["consts"] if c["path"].split("::")[-1] == n.split("::")[-1] and c.get("v") is not None]
                    n = v[0] if v else None
                self.arrays.append((i, f["name"], int(n) if n is not None else None))
        arr = self.arrays

        def rule(s):
            if s.op == "fld" and s.args[1] is None and s.args[0].op in ("deref", "sym"):
                for i, nm, n in arr:
                    if (i, nm) == s.args[2:4] and n is not None:
                        return num(n)
            return None
        TM.LEN_RULES[:] = [rule]
        self.cap = arr[0][2] if arr else None
        return self.cap is not None

    def parts(self, I, st, ref):
        """the two observed slices [(left, right, state)]"""
        keep = I.panic_states
        I.panic_states = None
        out = []
        for v, s in I.run(self.asb, [ref], st.copy(), -1, ("obs",)):
            l, r = v.args[2] if v.op == "rec" else (v, v)
            out.append((I.deref(s, l), I.deref(s, r), s))
        I.panic_states = keep
        return out

    def text(self, I, st, ref):
        p = self.parts(I, st, ref)
        if len(p) != 1:
            return unk("as_bytes"), None
        l, r, s = p[0]
        return concat(l, r), (l, r)

    def assume_inv(self, I, st, ref):
        """the two slices of an existing buffer do not overlap"""
        t, lr = self.text(I, st, ref)
        if lr is None:
            return t
        l, r = lr
        for g in segs(l) + segs(r):
            if g.op == "sl":
                I.assume(st, le(g.args[1], g.args[2]))
                I.assume(st, le(g.args[2], length(g.args[0])))
        a, b = segs(l), segs(r)
        if len(a) == 1 and len(b) == 1 and a[0].op == b[0].op == "sl":
            I.assume(st, le(a[0].args[2], b[0].args[1]))
        t, _ = self.text(I, st, ref)
        return t

    def check_inv(self, I, st, ref, key):
        t, lr = self.text(I, st, ref)
        if lr is None:
            self.rep.add(key, "open", "as_bytes")
            return
        v = self.I_raw(I, st, ref)
        if v is None:
            self.rep.add(key, "open", "")
            return
        x, y, n = v
        F = st.facts
        a = entails(st, sub(y, x))
        b = entails(st, sub(num(n), y))
        self.rep.judge(key, False if (a is False or b is False) else True if (a and b) else None,
                       "gap [%s, %s) is not inside the buffer" % (x, y))

    def I_raw(self, I, st, ref):
        """gap boundaries as expressions over the fields of the buffer behind `ref`"""
        z = State()
        g = mkref(("O", sym("gap0")), ())
        p = self.parts(I, z, g)
        if len(p) != 1:
            return None
        l, r = segs(p[0][0]), segs(p[0][1])
        if len(l) != 1 or len(r) != 1 or l[0].op != "sl" or r[0].op != "sl":
            return None
        base = mk("deref", sym("gap0"))
        m = {}
        cur = I.deref(st, ref)
        for f in atoms(l[0].args[2]) | atoms(r[0].args[1]):
            if f.op == "fld" and f.args[0] is base:
                m[f] = fld(cur, *f.args[1:])
        return subst(l[0].args[2], m), subst(r[0].args[1], m), self.cap

    # ------------------------------------------------------------
    def op(self, name, trait, spec, variants=((),), bufs=()):
        """spec(ctx) -> (precondition facts, args, judge(ret, st, ctx))"""
        b = self.m(name, trait)
        label = (trait + "::" if trait else "") + name
        if b is None:
            self.rep.notes.append("GapBuffer::%s not found" % label)
            return
        for var in variants:
            with guarded(self.rep, "GapBuffer::" + label + ("(%s)" % var[0] if var else "")):
                self._op(b, label, spec, var)

    def _op(self, b, label, spec, var):
            I = self.interp()
            st = State()
            c = Ctx()
            c.g = self
            c.I = I
            c.var = var
            selfty = b.locals[1]["ty"]
            c.selfref = mkref(("O", sym("self")), ())
            c.T = self.assume_inv(I, st, c.selfref)
            c.n = length(c.T)
            c.self0 = I.deref(st, c.selfref)
            args, judge = spec(c, st)
            I.panic_states = []
            outs = I.run(b, [c.selfref] + args, st)
            self.rep.ran(b.path, len(outs), file=b.file)
            vk = label + ("(%s)" % var[0] if var else "")
            if not outs:
                self.rep.add("returns: GapBuffer::" + vk, "bad", "no path returns for valid arguments")
            for v, s in outs:
                if not I_feasible(s):
                    continue
                judge(v, s, vk)
                self.check_inv(I, s, c.selfref, "gap stays inside the buffer: GapBuffer::" + vk)
            for what, site, s in I.panic_states:
                if I_feasible(s):
                    self.rep.add("no panic on valid arguments: GapBuffer::%s (%s)" % (vk, what), "open" if any(l.unk for l in s.facts.lits) else "bad",
                                 "%s at %s" % (what, site))
            if not I.panic_states:
                self.rep.add("no panic on valid arguments: GapBuffer::%s" % vk, "ok")

    def same(self, I, s, got, want, key, msg):
        self.rep.judge(key, equal(I, s, got, want), "%s: got %s, want %s" % (msg, got, want))


SITE = Site("spec", 0, ("", 0), ())


class Ctx:
    pass


def atoms(e):
    return set(TM._lin(e)[1])


def I_feasible(s):
    r = TM.fm_feasible(s.facts.system([num(0)] + list(s.facts.num)))
    return r is not False


RNG = "std::ops::"


def run(prog, rep):
    G = Gap(prog, rep)
    try:
        good = G.setup()
    except Exception as e:
        rep.notes.append("as_bytes not analysable: %r" % e)
        good = False
    if not good:
        rep.floor("GapBuffer::as_bytes", 0, 1)
        return
    try:
        _run(G, prog, rep)
        rep.floor("GapBuffer operations", len(rep.functions), 10)
    finally:
        TM.LEN_RULES[:] = []


def _run(G, prog, rep):
    CAP = num(G.cap)

    # new
    b = G.m("new")
    if b:
        I = G.interp()
        outs = I.run(b, [], State())
        rep.ran(b.path, len(outs), file=b.file)
        for v, s in outs:
            root = ("O", sym("new"))
            s.store[root] = v
            t, _ = G.text(I, s, mkref(root, ()))
            G.same(I, s, t, EMPTY, "contents: GapBuffer::new", "a new buffer is not empty")
            G.check_inv(I, s, mkref(root, ()), "gap stays inside the buffer: GapBuffer::new")

    def newtext(c, s):
        return G.text(c.I, s, c.selfref)[0]

    def bytesref(c, name="bytes"):
        return mkref(("O", sym(name)), ()), mk("deref", sym(name))

    def spliced(c, s, i, mid):
        I = c.I
        return concat(concat(I.seq_slice(s, c.T, num(0), i), mid), I.seq_slice(s, c.T, i, c.n))

    def inserter(mk_args, with_result=True):
        def spec(c, st):
            args, i, mid = mk_args(c, st)

            def judge(v, s, vk):
                r = s.facts.variant(v)
                if r is None and with_result:
                    rep.add("contents: GapBuffer::" + vk, "open", "")
                    return
                if with_result and r == "Err":
                    G.same(c.I, s, newtext(c, s), c.T, "rejected edit leaves the text unchanged: GapBuffer::" + vk, "text changed")
                    fits = entails(s, sub(CAP, add(c.n, length(mid))))
                    rep.judge("rejected only when it does not fit: GapBuffer::" + vk,
                              entails(s, sub(add(c.n, length(mid)), add(CAP, num(1)))), "Err although the bytes fit")
                    if c.var and c.var[0] == "elem":
                        G.same(c.I, s, fld(v, "Err", 0, "0"), c.elem0, "rejected element is handed back unchanged: GapBuffer::" + vk, "element")
                    return
                G.same(c.I, s, newtext(c, s), spliced(c, s, i(c), mid), "contents: GapBuffer::" + vk, "text after the edit")
            return args, judge
        return spec

    def idx(c, st):
        i = sym("index")
        c.I.assume(st, le(i, c.n))
        c.i = i
        return i

    def a_ins(c, st):
        i = idx(c, st)
        r, t = bytesref(c)
        return [i, r], (lambda c: i), t

    G.op("insert_bytes", None, inserter(a_ins))

    def a_pair(c, st):
        i = idx(c, st)
        r, t = bytesref(c, "left")
        q, u = bytesref(c, "right")
        return [i, tup(r, q)], (lambda c: i), concat(t, u)

    G.op("insert_bytes_pair", None, inserter(a_pair))

    def a_push(c, st):
        r, t = bytesref(c)
        return [r], (lambda c: c.n), t

    G.op("push_bytes", None, inserter(a_push))

    def other(c, st, name="other"):
        ref = mkref(("O", sym(name)), ())
        t = G.assume_inv(c.I, st, ref)
        return ref, t, c.I.deref(st, ref)

    def a_try(c, st):
        i = idx(c, st)
        ref, t, v = other(c, st)
        c.elem0 = v
        return [i, v], (lambda c: i), t

    G.op("try_insert", "TryInsert", inserter(a_try), variants=(("elem",),))

    def a_mr(c, st):
        ref, t, v = other(c, st)
        c.I.assume(st, le(add(c.n, length(t)), CAP))
        return [ref], (lambda c: c.n), t

    def a_ml(c, st):
        ref, t, v = other(c, st)
        c.I.assume(st, le(add(c.n, length(t)), CAP))
        return [ref], (lambda c: num(0)), t

    G.op("merge_right", "Mergeable", inserter(a_mr, False))
    G.op("merge_left", "Mergeable", inserter(a_ml, False))

    # can_merge only when the merged text fits
    def s_cm(c, st):
        ref, t, v = other(c, st)

        def judge(v, s, vk):
            for b, s2 in c.I.split_bool(s, v):
                e = sub(CAP, add(c.n, length(t)))
                if b:
                    rep.judge("merging is offered only when it fits: GapBuffer::" + vk, entails(s2, e), "can_merge although too long")
        return [ref], judge
    G.op("can_merge", "Mergeable", s_cm)

    def s_len(c, st):
        def judge(v, s, vk):
            G.same(c.I, s, v, c.n, "length: GapBuffer::" + vk, "reported length")
            G.same(c.I, s, newtext(c, s), c.T, "reading leaves the text unchanged: GapBuffer::" + vk, "text")
        return [], judge
    G.op("len", None, s_len)
    G.op("rle_len", "HasLength", s_len)

    def s_shift(c, st):
        i = idx(c, st)

        def judge(v, s, vk):
            G.same(c.I, s, newtext(c, s), c.T, "moving the gap keeps the text: GapBuffer::" + vk, "text after moving the gap")
        return [i], judge
    G.op("shift_at", None, s_shift)

    def s_vec(c, st):
        def judge(v, s, vk):
            G.same(c.I, s, v, c.T, "contents: GapBuffer::" + vk, "copied text")
        return [], judge
    G.op("to_vec", None, s_vec)

    def s_clone(c, st):
        def judge(v, s, vk):
            G.same(c.I, s, v, c.self0, "clone equals the original: GapBuffer::" + vk, "clone")
        return [], judge
    G.op("clone", "std::clone::Clone", s_clone)

    def s_canrem(c, st):
        def judge(v, s, vk):
            for b, s2 in c.I.split_bool(s, v):
                if not I_feasible(s2):
                    continue
                if b:
                    rep.judge("only an empty buffer is removable: GapBuffer::" + vk, entails_eq(s2, c.n, num(0)), "removable with text")
                else:
                    rep.judge("an empty buffer is removable: GapBuffer::" + vk, entails(s2, sub(c.n, num(1))), "empty but kept")
        return [], judge
    G.op("can_remove", "CanRemove", s_canrem)

    # ranges
    def ranges(c, st, clamp):
        k = c.var[0]
        a, b = sym("a"), sym("b")
        if k == "Range":
            r, lo, hi = rec(RNG + "Range", None, a, b), a, b
        elif k == "RangeFrom":
            r, lo, hi = rec(RNG + "RangeFrom", None, a), a, c.n
        elif k == "RangeTo":
            r, lo, hi = rec(RNG + "RangeTo", None, b), num(0), b
        elif k == "RangeInclusive":
            r, lo, hi = rec(RNG + "RangeInclusive", None, a, b, FALSE), a, add(b, num(1))
        elif "/" in k:
            k1, k2 = k.split("/")
            B = "std::ops::Bound"
            lo = {"Included": a, "Excluded": add(a, num(1)), "Unbounded": num(0)}[k1]
            hi = {"Included": add(b, num(1)), "Excluded": b, "Unbounded": c.n}[k2]
            r = rec("I:bounds", None, rec(B, k1, *([a] if k1 != "Unbounded" else [])), rec(B, k2, *([b] if k2 != "Unbounded" else [])))
        else:
            r, lo, hi = rec(RNG + "RangeFull", None), num(0), c.n
        c.I.assume(st, le(lo, hi))
        if not clamp:
            c.I.assume(st, le(hi, c.n))
        return r, lo, hi

    KINDS = (("Range",), ("RangeFrom",), ("RangeTo",), ("RangeFull",), ("RangeInclusive",), ("Excluded/Included",),
             ("Excluded/Excluded",), ("Unbounded/Included",))

    def s_del(c, st):
        r, lo, hi = ranges(c, st, False)

        def judge(v, s, vk):
            I = c.I
            want = concat(I.seq_slice(s, c.T, num(0), lo), I.seq_slice(s, c.T, hi, c.n))
            G.same(I, s, newtext(c, s), want, "contents: GapBuffer::" + vk, "text after deleting")
        return [r], judge
    G.op("delete", None, s_del, variants=KINDS)

    def s_slice_(c, st):
        r, lo, hi = ranges(c, st, False)

        def judge(v, s, vk):
            G.same(c.I, s, newtext(c, s), c.I.seq_slice(s, c.T, lo, hi), "contents: GapBuffer::" + vk, "text kept")
        return [r], judge
    G.op("slice_", "Sliceable", s_slice_, variants=KINDS)

    def s__slice(c, st):
        r, lo, hi = ranges(c, st, False)

        def judge(v, s, vk):
            root = ("O", sym("ret"))
            s.store[root] = v
            t, _ = G.text(c.I, s, mkref(root, ()))
            G.same(c.I, s, t, c.I.seq_slice(s, c.T, lo, hi), "contents: GapBuffer::" + vk, "text of the slice")
            G.same(c.I, s, newtext(c, s), c.T, "slicing leaves the source unchanged: GapBuffer::" + vk, "source text")
            G.check_inv(c.I, s, mkref(root, ()), "gap stays inside the buffer: slice returned by GapBuffer::" + vk)
        return [r], judge
    G.op("_slice", "Sliceable", s__slice, variants=(("Range",),))

    def s_split(c, st):
        i = idx(c, st)

        def judge(v, s, vk):
            root = ("O", sym("ret"))
            s.store[root] = v
            t, _ = G.text(c.I, s, mkref(root, ()))
            G.same(c.I, s, newtext(c, s), c.I.seq_slice(s, c.T, num(0), i), "contents: left half of GapBuffer::" + vk, "left half")
            G.same(c.I, s, t, c.I.seq_slice(s, c.T, i, c.n), "contents: right half of GapBuffer::" + vk, "right half")
            G.check_inv(c.I, s, mkref(root, ()), "gap stays inside the buffer: right half of GapBuffer::" + vk)
        return [i], judge
    G.op("split", "Sliceable", s_split)

    # a string is cut into chunks that concatenate back to it
    b = G.m("from_str")
    if b is None:
        rep.notes.append("GapBuffer::from_str not found")
        return
    with guarded(rep, "GapBuffer::from_str", 60):
        from .models import inext
        I = G.interp()
        st = State()
        src = mkref(("O", sym("text")), ())
        full = mk("deref", sym("text"))
        I.panic_states = []
        work = [(v, s, EMPTY, 0) for v, s in I.run(b, [src], st)]
        npaths = 0
        while work:
            it, s, acc, k = work.pop()
            if k == 3:
                continue
            for item, it2, s2 in inext(I, s, it, SITE, None):
                npaths += 1
                if not I_feasible(s2):
                    continue
                if item is None:
                    G.same(I, s2, acc, full, "chunks concatenate to the string: GapBuffer::from_str", "chunks so far when the iteration ends")
                    continue
                root = ("O", sym("chunk%d" % k))
                s2.store[root] = item
                t, _ = G.text(I, s2, mkref(root, ()))
                G.check_inv(I, s2, mkref(root, ()), "gap stays inside the buffer: chunk from GapBuffer::from_str")
                acc2 = concat(acc, t)
                G.same(I, s2, acc2, I.seq_slice(s2, full, num(0), length(acc2)), "chunks are consecutive pieces: GapBuffer::from_str", "chunks so far")
                e = entails(s2, sub(length(t), num(1)))
                rep.judge("chunks are not empty: GapBuffer::from_str", e, "an empty chunk")
                work.append((it2, s2, acc2, k + 1))
        for what, site, s in I.panic_states:
            if I_feasible(s):
                rep.add("no panic on valid arguments: GapBuffer::from_str (%s)" % what, "open" if any(l.unk for l in s.facts.lits) else "bad", "%s at %s" % (what, site))
        rep.ran(b.path, npaths, file=b.file)
