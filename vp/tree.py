"""What is known about the tree before an operation, and how its state afterwards is judged.

Initial heap cells are terms nd(arena, key). The rules below say what links and kinds the cells of a
well-formed tree have; they are applied wherever such a term is projected. A helper that rebuilds
part of the tree opens a new epoch: fresh arenas that again satisfy the rules and keep every element.
"""
from .spec import *
from .models import rle_of

AI = "ArenaIndex"


def fn(base, ty, name):
    """field of a struct, wherever the struct keeps it"""
    from .judge import FIELDS
    return fld(base, None, FIELDS[ty].index(name), name)


def is_fld(t, name):
    return t.op == "fld" and t.args[3] == name


def base_seq(it):
    """(sequence, first index) an iterator runs over from the front"""
    while it.op == "rec":
        k = str(it.args[0])
        if k == "I:seq":
            return it.args[2][1], it.args[2][2]
        if k not in ("I:enum", "I:map", "I:proj", "I:copied"):
            return None
        it = it.args[2][0]
    return None


def child_reads(t, k):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif hasattr(x, "op") and x not in seen:
            seen.add(x)
            if x.op == "el" and mentions(x.args[1], k):
                out.append(x)
            todo += x.args
    return out


def keys_of(t, k):
    out, todo, seen = [], [t], set()
    while todo and len(out) < 8:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif hasattr(x, "op") and x not in seen:
            seen.add(x)
            if x.op in ("sym", "fld", "app", "fresh") and not mentions(x, k):
                out.append(x)
            elif x.op not in ("el",):
                todo += x.args
    return out


class Diff:
    """summaries that are lengths, differences that are differences"""
    name = "summaries with differences"
    use_diff = True

    def ec(self, e):
        return rle_of(e)

    def cc(self, s):
        b = mk("bv", 0)
        s = mkseq([s]) if s.op != "seq" else s
        r = num(0)
        for g in segs(s):
            if g.op == "u":
                r = add(r, fn(g.args[0], "Child", "cache"))
            elif g.op == "sl":
                r = add(r, TM.sumseq(mkseq([mk("gen", b, g.args[1], g.args[2], fn(el(g.args[0], b), "Child", "cache"))])))
            elif g.op == "gen":
                r = add(r, TM.sumseq(mkseq([mk("gen", g.args[0], g.args[1], g.args[2], fn(g.args[3], "Child", "cache"))])))
            else:
                r = add(r, mk("app", "cc", mkseq([g])))
        return r

    def apply(self, c, d):
        return add(c, d)

    mdiff = apply

    def dsub(self, a, b):
        return sub(a, b)

    def c2d(self, c):
        return c

    def default(self):
        return num(0)


class Free:
    """summaries nothing is known about, always computed from scratch"""
    name = "summaries without differences"
    use_diff = False

    def ec(self, e):
        return mk("app", "ec", e)

    def cc(self, s):
        return mk("app", "cc", s)

    def apply(self, c, d):
        return mk("app", "apply", c, d)

    def mdiff(self, c, d):
        return mk("app", "mdiff", c, d)

    def dsub(self, a, b):
        return mk("app", "dsub", a, b)

    def c2d(self, c):
        return mk("app", "c2d", c)

    def default(self):
        return mk("app", "default")


class Tree(Spec):
    """a run over an arbitrary well-formed tree"""

    MAX = 12

    def __init__(self, prog, rep, theory, inside=()):
        super().__init__(prog, rep)
        from .judge import FIELDS
        # where the tree is: the place `self` points at, or a field of it
        self.home = ("O", sym("self")), tuple(("f", None, FIELDS[ty].index(name), name) for ty, name in inside)
        self.th = theory
        for c in prog.d["consts"]:
            if c["path"] == "MAX_CHILDREN_NUM" and c.get("v"):
                self.MAX = c["v"]
        self.R = sym("ROOT")
        self.me = val("self")
        for _, _, i, name in self.home[1]:
            self.me = fld(self.me, None, i, name)
        self.IN0 = fn(self.me, "BTree", "in_nodes")
        self.LN0 = fn(self.me, "BTree", "leaf_nodes")
        self.pairs = {self.IN0: self.LN0}      # internal arena -> leaf arena of one epoch
        self.older = {}                        # leaf arena -> (older leaf arena value)
        self.split_of = {}                     # internal arena -> (older leaf arena, node that was split)
        self.epoch_ids = {}
        self.full = []                         # nodes that may hold one child more than the others

    # ------------------------------------------------------------ vocabulary
    def nd(self, k, IN=None):
        return mk("nd", IN or self.IN0, k)

    def ld(self, k, LN=None):
        return mk("nd", LN or self.LN0, k)

    def children(self, k, IN=None):
        return fn(self.nd(k, IN), "Node", "children")

    def pslot(self, k, IN=None):
        return fn(self.nd(k, IN), "Node", "parent_slot")

    def par(self, k, IN=None):
        """parent of an internal node that has one"""
        return mk("app", "par", IN or self.IN0, k)

    def lpar(self, k, LN=None):
        return fn(self.ld(k, LN), "LeafNode", "parent")

    def lslot(self, k, LN=None):
        return mk("app", "lslot", LN or self.LN0, k)

    def elem0(self, k, LN=None):
        return fn(self.ld(k, LN), "LeafNode", "elem")

    def inode(self, k):
        return mk("rec", AI, "Internal", (k,))

    def leafi(self, k):
        return mk("rec", AI, "Leaf", (k,))

    # ------------------------------------------------------------ rules
    def is_children(self, t):
        """(arena, key) when t is the child list of an initial node"""
        if t.op == "fld" and t.args[3] == "children" and t.args[0].op == "nd" and t.args[0].args[0] in self.pairs:
            return t.args[0].args
        return None

    def child_key(self, k):
        """(arena, parent key, index, kind) when k is the key of an initial child"""
        if k.op == "fld" and k.args[1] in ("Leaf", "Internal") and is_fld(k.args[0], "arena") and k.args[0].args[0].op == "el":
            s, i = k.args[0].args[0].args
            c = self.is_children(s)
            if c is not None:
                return c[0], c[1], i, k.args[1]
        return None

    def place(self, x):
        """(arena, parent key, index) of an initial child, given its key or its index value"""
        if x.op == "rec" and x.args[0] == AI:
            x = x.args[2][0]
        c = self.child_key(x)
        if c is not None:
            return c[:3]
        if is_fld(x, "arena") and x.args[0].op == "el":
            c = self.is_children(x.args[0].args[0])
            if c is not None:
                return c[0], c[1], x.args[0].args[1]
        return None

    def rule_fld(self, base, variant, idx, name):
        if base is self.me and name == "root":
            return self.inode(self.R)
        if base.op == "nd":
            a, k = base.args
            if a in self.pairs:
                c = self.child_key(k)
                if name == "parent":
                    if k is self.R:
                        return NONE
                    if c is not None and c[0] is a and c[3] == "Internal":
                        return some(self.inode(c[1]))
                elif name == "parent_slot" and c is not None and c[0] is a and c[3] == "Internal":
                    return c[2]
            elif a in self.pairs.values():
                c = self.child_key(k)
                if name == "parent" and c is not None and self.pairs[c[0]] is a and c[3] == "Leaf":
                    return c[1]
                if name == "elem" and a in self.older:
                    return fn(self.I.arena_get(State(), self.older[a], k), "LeafNode", "elem")
        if variant == "Some" and is_fld(base, "parent") and base.args[0].op == "nd" and base.args[0].args[0] in self.pairs:
            a, k = base.args[0].args
            return self.inode(self.par(k, a))
        if name == "arena" and base.op == "el":
            c = self.is_children(base.args[0])
            if c is not None:
                i = base.args[1]
                if is_fld(i, "parent_slot") and i.args[0].op == "nd" and i.args[0].args[0] is c[0]:
                    n = i.args[0].args[1]
                    if self.par(n, c[0]) is c[1]:
                        return self.inode(n)
                if i.op == "app" and i.args[0] == "lslot" and self.pairs[c[0]] is i.args[1]:
                    k = i.args[2]
                    if self.lpar(k, i.args[1]) is c[1]:
                        return self.leafi(k)
        return None

    def rule_variant(self, t):
        """all children of a node are of one kind"""
        if is_fld(t, "arena") and t.args[0].op == "el":
            if t.args[0].args[0].op == "seq":
                # any position of a list whose children are all of one kind
                r = set()
                for g in segs(t.args[0].args[0]):
                    if g.op == "u":
                        a = F(g.args[0], "Child", "arena")
                    elif g.op == "sl":
                        a = fn(el(g.args[0], g.args[1]), "Child", "arena")
                    else:
                        return None
                    x = a.args[1] if a.op == "rec" else self.rule_variant(a)
                    if x is None:
                        return None
                    r.add(mk("rec", AI, x, ()) if isinstance(x, str) else x)
                if len(r) == 1:
                    x = r.pop()
                    return x.args[1] if x.op == "rec" else x
                return mk("app", "allof", *sorted(r, key=lambda x: x.id)) if r else None
            c = self.is_children(t.args[0].args[0])
            if c is not None:
                a, p = c
                if is_fld(p, "parent") and p.args[0].op == "nd" and p.args[0].args[0] is self.pairs[a]:
                    return "Leaf"
                if p.op == "app" and p.args[0] == "par" and p.args[1] is a:
                    return "Internal"
                # all elements are equally far from the root
                up = 0
                while True:
                    c = self.child_key(p)
                    if c is None or c[0] is not a or c[3] != "Internal":
                        break
                    p, up = c[1], up + 1
                return mk("app", "kind", a, p) if not up else mk("app", "kind", a, p, num(up))
        if t.op == "app" and t.args[0] == "ite?":
            return None
        return None

    def rule_atom(self, a):
        if a.op == "len":
            c = self.is_children(a.args[0])
            if c is not None:
                out = [sub(num(self.MAX if c[1] in self.full else self.MAX - 1), a)]
                if self.occupied(c[0], c[1]):
                    out.append(sub(a, num(1)))
                so = self.split_of.get(c[0])
                if so is not None and is_fld(c[1], "parent") and c[1].args[0].op == "nd":
                    k = c[1].args[0].args[1]
                    if c[1].args[0].args[0] is self.pairs[c[0]] and self.lpar(k, so[0]) is so[1]:
                        out.append(sub(num(self.MAX // 2), a))
                return out
        if is_fld(a, "parent_slot") and a.args[0].op == "nd" and a.args[0].args[0] in self.pairs:
            IN, n = a.args[0].args
            if n is not self.R:
                return [sub(sub(length(self.children(self.par(n, IN), IN)), a), num(1))]
        if a.op == "app" and a.args[0] == "lslot":
            LN, k = a.args[1:]
            for IN, l in self.pairs.items():
                if l is LN:
                    return [sub(sub(length(self.children(self.lpar(k, LN), IN)), a), num(1))]
        return []

    def occupied(self, IN, k):
        """nodes known to have a child"""
        if k.op == "app" and k.args[0] == "par":
            return True
        if is_fld(k, "parent") and k.args[0].op == "nd" and k.args[0].args[0] in self.pairs.values():
            return True
        return self.child_key(k) is not None and self.child_key(k)[3] == "Internal"

    def rule_alive(self, I, st, v):
        a, k = v.args
        if a in self.pairs:
            if k is self.R or self.occupied(a, k):
                return TRUE
        elif a in self.pairs.values():
            if self.child_key(k) is not None:
                return TRUE
            if a in self.older:
                o = I.arena_get(st, self.older[a], k)
                if o.op == "nd":
                    return I.alive(st, o)
                from .engine import DEAD
                return FALSE if o is DEAD else TRUE
        return None

    def hook(self, I, st, b, pol):
        """consequences of a branch"""
        if not self.heights(st, b, pol):
            return False
        if b.op == "isvar" and is_fld(b.args[0], "parent") and b.args[0].args[0].op == "nd" and b.args[0].args[0].args[0] in self.pairs:
            k = b.args[0].args[0].args[1]
            none = (b.args[1] == "None") == pol
            if none and k is not self.R:
                a = b.args[0].args[0].args[0]
                kd = self.rule_variant(fn(el(self.children(k, a), num(0)), "Child", "arena"))
                here = length(self.children(k, a))
                known = [TM.subst(x, {here: length(self.children(self.R, a))}) for x in self.rule_atom(here)]
                if isinstance(kd, str) and not st.facts.assume(isvar_(mk("app", "kind", a, self.R), kd)):
                    return False
                return st.facts.assume(eq(k, self.R)) and all(st.facts.assume(le(num(0), x)) for x in known)
            if not none and k is self.R:
                return False
        if b.op == "eq" and not pol:
            for x, y in (b.args, b.args[::-1]):
                c = self.child_key(x)
                if c is not None and c[3] == "Leaf" and self.child_key(y) is None and y.op != "fresh":
                    LN = self.pairs[c[0]]
                    if st.facts.canon(self.lpar(y, LN)) is st.facts.canon(c[1]) and not st.facts.assume(eqi(self.lslot(y, LN), c[2]), False):
                        return False
        if b.op == "eq" and pol:
            x, y = b.args
            lx, ly = self.level(x), self.level(y)
            if lx is not None and ly is not None and lx[0] is ly[0] and lx[1] != ly[1]:
                return False
            cx, cy = self.place(x), self.place(y)
            if cx is not None and cy is not None and cx[0] is cy[0]:
                # one place in one list
                if cx[1] is not cy[1] and not (st.facts.assume(eq(cx[1], cy[1])) and self.hook(I, st, eq(cx[1], cy[1]), True)):
                    return False
                if not st.facts.assume(eqi(cx[2], cy[2])):
                    return False
            for x, y in ((x, y), (y, x)):
                if y is self.R and x is not self.R:
                    # what is known of the node holds for the root
                    for a in self.pairs:
                        kd = self.rule_variant(fn(el(self.children(x, a), num(0)), "Child", "arena"))
                        if isinstance(kd, str) and not st.facts.assume(isvar_(mk("app", "kind", a, self.R), kd)):
                            return False
                c = self.child_key(x)
                if c is not None and c[3] == "Leaf":
                    LN = self.pairs[c[0]]
                    p = st.facts.canon(self.lpar(y, LN))
                    if p is st.facts.canon(c[1]):
                        return st.facts.assume(eqi(c[2], self.lslot(y, LN)))
                    if self.child_key(y) is None and y.op != "fresh":
                        # the same leaf has one parent
                        return st.facts.assume(eq(p, c[1])) and st.facts.assume(eqi(c[2], self.lslot(y, LN)))
                if c is not None and c[3] == "Internal" and self.child_key(y) is None and y.op != "fresh":
                    p = st.facts.canon(self.par(y, c[0]))
                    if p is st.facts.canon(c[1]):
                        return st.facts.assume(eqi(c[2], self.pslot(y, c[0])))
        return True

    def level(self, k):
        """(arena, how far above the elements) when known"""
        up = 0
        while k.op == "app" and k.args[0] == "par" and k.args[1] in self.pairs:
            k, up = k.args[2], up + 1
        if is_fld(k, "parent") and k.args[0].op == "nd":
            for IN, l in self.pairs.items():
                if l is k.args[0].args[0]:
                    return IN, up + 1
        return None

    def heights(self, st, b, pol):
        """all elements are equally far from the root"""
        def h(a, n, exact):
            x = mk("app", "height", a)
            return st.facts.assume(eqi(x, num(n)) if exact else le(num(n), x))
        if b.op == "eq":
            for x, y in (b.args, b.args[::-1]):
                if y is self.R:
                    l = self.level(x)
                    if l is not None and not (h(*l, True) if pol else h(l[0], l[1] + 1, False)):
                        return False
        elif b.op == "isvar" and is_fld(b.args[0], "parent") and b.args[0].args[0].op == "nd" and b.args[0].args[0].args[0] in self.pairs:
            l = self.level(b.args[0].args[0].args[1])
            if (b.args[1] == "None") == pol:
                # parents that differ from a missing one are there
                for x, v in list(st.facts.lits.items()):
                    if x.op == "eq" and v is False and b.args[0] in x.args:
                        y = x.args[0] if x.args[1] is b.args[0] else x.args[1]
                        if is_fld(y, "parent") and y.args[0].op == "nd" and not (st.facts.assume(isvar_(y, "Some")) and self.heights(st, isvar_(y, "Some"), True)):
                            return False
            if l is not None:
                return h(*l, True) if (b.args[1] == "None") == pol else h(l[0], l[1] + 1, False)
        elif b.op == "isvar" and is_fld(b.args[0], "arena"):
            k = self.rule_variant(b.args[0])
            if k is not None and not isinstance(k, str) and k.op == "app" and k.args[0] == "kind" and k.args[2] is self.R:
                n = numval(k.args[3]) if len(k.args) > 3 else 0
                return h(k.args[1], n + 1, True) if (b.args[1] == "Leaf") == pol else h(k.args[1], n + 2, False)
        return True

    def not_passed(self, I, st, every, k):
        """a scan of a child list that ends at a known child has not gone past it"""
        for l, v in every:
            for E in child_reads(l, k):
                seq, i = E.args
                c = self.is_children(seq)
                if c is None:
                    continue
                off = sub(i, k)
                if off.op == "num" or not mentions(off, k):
                    for key in keys_of(l, k):
                        for kd in ("Leaf", "Internal"):
                            got = [(p, s) for p, s in self.find_child(I, st.copy(), seq, kd, key) if feasible(s)]
                            if len(got) != 1 or got[0][0] is None:
                                continue
                            w = sub(got[0][0], off)
                            s = got[0][1]
                            if s.facts.entail(w) is not True:
                                # rounds peeled off the scan have looked at the first children
                                n = numval(off)
                                if n is None or not 0 < n <= 3 or any(
                                        I.assume(s.copy(), eq(got[0][0], num(c))) and I.assume(s.copy(), eq(fld(fn(el(seq, num(c)), "Child", "arena"), kd, 0, "0"), key))
                                        for c in range(n)):
                                    continue
                                if not I.assume(s, le(num(0), w)):
                                    continue
                            there = fld(fn(el(seq, got[0][0]), "Child", "arena"), kd, 0, "0")
                            if not I.assume(s, eq(there, key)):
                                continue
                            at = subst(l, {E: el(seq, got[0][0]), k: w})
                            if s.facts.value(at) is (not v) and not I.assume(st, le(k, w)):
                                return False
        return True

    def search(self, I, st, kind, it, f, j, site, t):
        """a search that a known child satisfies finds something, no later than that child"""
        from .models import shift_iter, inext, callable_place, strip
        b = base_seq(it)
        if b is None:
            return
        seq = I.deref(st, b[0]) if b[0].op == "ref" else b[0]
        if not any(g.op == "sl" and self.is_children(g.args[0]) for g in segs(st.facts.canon(seq))):
            return
        keys = []
        todo = [strip(I, st, f) if f.op == "ref" else f]
        while todo and len(keys) < 12:
            x = todo.pop()
            if x.op == "ref":
                x = strip(I, st, x)
            x = st.facts.canon(x)
            if x.op == "rec":
                todo += list(x.args[2])
            elif x.op in ("sym", "fld", "app", "fresh") and x not in keys:
                keys.append(x)
        for k in keys:
            for kd in ("Leaf", "Internal"):
                got = [(p, s) for p, s in self.find_child(I, st.copy(), seq, kd, k) if feasible(s)]
                if len(got) != 1 or got[0][0] is None:
                    continue
                w = sub(got[0][0], b[1])
                s = got[0][1]
                keep = I.mark()
                if s.facts.entail(w) is not True:
                    continue
                it2 = shift_iter(it, w)
                outs = inext(I, s, it2, site, t) if it2 is not None else None
                good = bool(outs)
                for x, m, s1 in outs or ():
                    if x is None:
                        continue
                    fv, wb = callable_place(I, s1, f, site)
                    if kind == "find":
                        root = ("T", "wit", site.fid, site.block)
                        s1.store[root] = x
                        x = mkref(root, ())
                    for v, s2 in I.call_value(fv, [x], s1, site, t):
                        if s2.facts.value(v) is not (kind != "all") and (v.hard or I.assume(s2.copy(), v, kind == "all")):
                            good = False
                I.reset(keep)
                if good:
                    I.assume(st, le(j, w))
                    # nothing before it does: the search finds this one
                    s = st.copy()
                    if I.assume(s, lt(j, w)) and feasible(s):
                        keep = I.mark()
                        for v, s2 in self.probe(I, s, kind, it, f, j, site, t):
                            if v is None or I.assume(s2, v, kind != "all") and feasible(s2):
                                break
                        else:
                            I.assume(st, eqi(j, w))
                        I.reset(keep)

    def probe(self, I, s, kind, it, f, w, site, t):
        """outcomes of a search's test on the element w places ahead"""
        from .models import shift_iter, inext, callable_place
        it2 = shift_iter(it, w)
        outs = inext(I, s, it2, site, t) if it2 is not None else None
        if outs is None:
            return [(None, s)]
        r = []
        for x, m, s1 in outs:
            if x is None:
                continue
            fv, wb = callable_place(I, s1, f, site)
            if kind == "find":
                root = ("T", "wit", site.fid, site.block)
                s1.store[root] = x
                x = mkref(root, ())
            r += I.call_value(fv, [x], s1, site, t)
        return r

    def saturate(self, I, st, leaves, IN, LN, nodes=()):
        """what the parents of known leaves and nodes hold at their places"""
        C = st.facts.canon
        for k in nodes:
            if k.op == "fresh" or C(k) is not k:
                continue
            y = self.th.cc(self.children(k, IN))
            if k is self.R:
                x = fn(self.me, "BTree", "root_cache")
            else:
                ck = self.child_key(k)
                if ck is not None and ck[0] is IN:
                    p, slot = C(ck[1]), C(ck[2])
                elif st.facts.variant(fn(self.nd(k, IN), "Node", "parent")) == "Some":
                    p, slot = C(self.par(k, IN)), C(self.pslot(k, IN))
                else:
                    continue
                c = el(self.children(p, IN), slot)
                a = fn(c, "Child", "arena")
                if C(a) is not C(self.inode(k)):
                    if st.facts.variant(a) == "Leaf":
                        return False
                    st.facts._merge(a, self.inode(k))
                x = fn(c, "Child", "cache")
            if C(x) is not C(y):
                if self.th.use_diff:
                    if not st.facts.define(x, y):
                        return False
                else:
                    st.facts._merge(x, y)
        for k in leaves:
            if k.op == "fresh" or self.gone(k, LN):
                continue
            ck = self.child_key(k)
            if ck is not None and ck[0] is IN:
                p, slot = C(ck[1]), C(ck[2])
            else:
                p, slot = C(self.lpar(k, LN)), C(self.lslot(k, LN))
            c = el(self.children(p, IN), slot)
            a = fn(c, "Child", "arena")
            if C(a) is not C(self.leafi(k)):
                if st.facts.variant(a) == "Internal":
                    return False
                st.facts._merge(a, self.leafi(k))
            x, y = fn(c, "Child", "cache"), self.th.ec(self.elem0(k, LN))
            if C(x) is not C(y):
                if self.th.use_diff:
                    if not st.facts.assume(eqi(x, y)):
                        return False
                else:
                    st.facts._merge(x, y)
        return True

    def gone(self, k, LN):
        """was the leaf removed before the arena's epoch"""
        while LN in self.older:
            LN = self.I.arena_parts(self.older[LN])[0] if self.I.arena_get(State(), self.older[LN], k) is not DEAD_ else None
            if LN is None:
                return True
        return False

    # ------------------------------------------------------------ set up
    def __enter__(self):
        self._keep = (list(TM.FLD_RULES), list(TM.VARIANT_RULES), list(TM.ATOM_FACTS))
        TM.FLD_RULES.append(self.rule_fld)
        TM.VARIANT_RULES.append(self.rule_variant)
        TM.ATOM_FACTS.append(self.rule_atom)
        return self

    def __exit__(self, *a):
        TM.FLD_RULES[:], TM.VARIANT_RULES[:], TM.ATOM_FACTS[:] = self._keep

    def interp(self, contracts=None, **kw):
        I = super().interp(contracts, **kw)
        I.theory = self.th
        I.stretches = self.stretches
        I.landmarks = self.landmarks
        I.casecuts = True
        I.alive_rules.append(self.rule_alive)
        I.assume_hooks.append(self.hook)
        I.search_rules.append(self.search)
        I.exit_rules.append(self.not_passed)
        self.I = I
        return I

    def start(self, I, leaf=None, node=None):
        st = State()
        I.assume(st, mk("const", "BTreeTrait::USE_DIFF", "bool"), self.th.use_diff)
        self.leaves = []
        if leaf is not None:
            I.assume(st, mk("app", "alive", self.ld(leaf)))
            self.leaves.append(leaf)
        self.nodes = []
        if node is not None:
            I.assume(st, mk("app", "alive", self.nd(node)))
            self.nodes.append(node)
        return st

    def now(self, st):
        """the tree as it is"""
        return self.I.deref(st, mkref(*self.home))

    def arenas(self, st):
        me = self.now(st)
        return fn(me, "BTree", "in_nodes"), fn(me, "BTree", "leaf_nodes")

    # ------------------------------------------------------------ contracts of helpers
    def setarenas(self, I, st, IN, LN):
        from .judge import FIELDS
        i = FIELDS["BTree"]
        root, path = self.home
        I.write(st, root, path + (("f", None, i.index("in_nodes"), "in_nodes"),), IN)
        I.write(st, root, path + (("f", None, i.index("leaf_nodes"), "leaf_nodes"),), LN)

    def find_child(self, I, st, seq, kind, key):
        """positions of a child in a list: [(index or None, state)]"""
        work = [(st, 0, num(0))]
        out = []
        gs = segs(st.facts.canon(seq))
        while work:
            s, n, pos = work.pop()
            if n == len(gs):
                out.append((None, s))
                continue
            g = gs[n]
            nxt = add(pos, seglen(g))
            if g.op == "u":
                a = s.facts.canon(fn(g.args[0], "Child", "arena"))
                k = a.args[2][0] if a.op == "rec" else fld(a, kind, 0, "0")
                if s.facts.canon(k) is s.facts.canon(key):
                    out.append((pos, s))
                    continue
            elif g.op == "sl":
                c = self.is_children(g.args[0])
                slot = None
                if c is not None:
                    ck = self.child_key(key)
                    ck = ck if ck is not None and ck[0] is c[0] and ck[3] == kind else None
                    if kind == "Leaf":
                        LN = self.pairs[c[0]]
                        if s.facts.canon(self.lpar(key, LN)) is s.facts.canon(c[1]):
                            slot = ck[2] if ck is not None else self.lslot(key, LN)
                    else:
                        p = ck[1] if ck is not None else self.par(key, c[0])
                        if s.facts.canon(p) is s.facts.canon(c[1]):
                            slot = ck[2] if ck is not None else self.pslot(key, c[0])
                if slot is not None:
                    inside = mk("and", (le(g.args[1], slot), lt(slot, g.args[2])))
                    a = s.copy()
                    if all(I.assume(a, x) for x in inside.args[0]):
                        out.append((add(pos, sub(slot, g.args[1])), a))
                    for x in inside.args[0]:
                        b = s.copy()
                        if I.assume(b, x, False):
                            work.append((b, n + 1, nxt))
                    continue
            work.append((s, n + 1, nxt))
        return out

    def k_ruc(self, I, args, st, site, t, body):
        """recursive_update_cache: the entry of a leaf is rewritten, all entries above follow"""
        idx, can, diff = args[1:4]
        out = []
        for vn, _, s in I.split_variant(st, idx, ["Leaf", "Internal"]):
            k = s.facts.canon(idx.args[2][0] if idx.op == "rec" else fld(idx, vn, 0, "0"))
            IN, LN = self.arenas(s)
            targets = []
            if vn == "Leaf":
                cell = I.arena_get(s, LN, k)
                if cell is DEAD_:
                    I.panic_states.append(("summary of a removed leaf requested", site, s))
                    continue
                p = s.facts.canon(fn(cell, "LeafNode", "parent"))
                node = I.arena_get(s, IN, p)
                if node is DEAD_:
                    I.panic_states.append(("parent of the leaf is gone", site, s))
                    continue
                ch = s.facts.canon(fn(node, "Node", "children"))
                for i, s2 in self.find_child(I, s, ch, "Leaf", k):
                    if i is None:
                        I.panic_states.append(("the leaf is not listed by its parent", site, s2))
                        continue
                    c = I.seq_get(s2, ch, i)
                    from .judge import FIELDS
                    c2 = setfld(c, None, FIELDS["Child"].index("cache"), "cache", self.th.ec(fn(cell, "LeafNode", "elem")))
                    n2 = setfld(node, None, FIELDS["Node"].index("children"), "children", I.seq_set(s2, ch, i, c2))
                    self.setarenas(I, s2, I.arena_set(s2, IN, p, n2), LN)
                    targets.append((p, s2))
            else:
                if I.arena_get(s, IN, k) is DEAD_:
                    I.panic_states.append(("summary of a removed node requested", site, s))
                    continue
                targets.append((k, s))
            for p, s2 in targets:
                for d, s3 in self.optional(I, s2, diff):
                    use = s3.facts.value(can)
                    if use is None:
                        use = self.th.use_diff
                    IN, LN = self.arenas(s3)
                    snap = s3.facts.canon(fn(I.arena_get(s3, IN, p), "Node", "children"))
                    s3.ev("ruc", I.arena_parts(IN)[0], p, d if use else None, snap, IN)
                    out.append((UNIT, s3))
        return out

    def optional(self, I, st, o):
        """[(payload or None, state)]"""
        out = []
        for vn, v, s in I.split_variant(st, o, ["Some", "None"]):
            out.append((None if vn == "None" else (v.args[2][0] if v.op == "rec" else fld(v, "Some", 0, "0")), s))
        return out

    def epoch(self, I, st, tag):
        """a relinked tree: every element stays, in the same order, under links that are again consistent"""
        IN, LN = self.arenas(st)
        ib, lb = I.arena_parts(IN)[0], I.arena_parts(LN)[0]
        n = self.epoch_ids.setdefault((tag, IN, LN), len(self.epoch_ids) + 1)
        i2 = mk("epoch", "in", n)
        l2 = mk("epoch", "leaf", n)
        self.pairs[i2] = l2
        self.older[l2] = LN
        self.setarenas(I, st, i2, l2)
        return ib, lb, i2, l2

    def k_split(self, I, args, st, site, t, body):
        idx = st.facts.canon(args[1])
        k = st.facts.canon(idx.args[2][0] if idx.op == "rec" else fld(idx, "Internal", 0, "0"))
        IN, LN = self.arenas(st)
        if I.arena_get(st, IN, k) is DEAD_:
            I.panic_states.append(("a removed node is split", site, st))
            return []
        st.ev("split", k, IN, LN, site)
        ib, lb, i2, l2 = self.epoch(I, st, mk("split", k))
        self.split_of[i2] = (lb, k)
        return [(UNIT, st)]

    def k_relink(self, kind):
        """a node short of children, or without any, is repaired: no element is lost, the links are consistent again"""
        def f(I, args, st, site, t, body):
            a = st.facts.canon(args[1])
            out = []
            if kind == "lack":
                a = fld(a, "Internal", 0, "0") if a.op != "rec" else a.args[2][0]
            for at_root, s in I.split_bool(st, eq(st.facts.canon(a), self.R)):
                k = s.facts.canon(a)
                IN, LN = self.arenas(s)
                if I.arena_get(s, IN, k) is DEAD_:
                    I.panic_states.append(("a removed node is repaired", site, s))
                    continue
                if at_root and kind == "empty":
                    out.append((UNIT, s))
                    continue
                s.ev("split", k, IN, LN, site, kind)
                self.epoch(I, s, mk("relink", k))
                out.append((UNIT, s))
            return out
        return f

    def stretches(self, st, g):
        """cut a slice of children where cells were changed in a row"""
        base, lo, hi = g.args
        me = st.facts.canon(base)
        bounds = []
        for a in self.arenas(st):
            for l in self.I.arena_parts(a)[1]:
                if l.op == "fa" and any(me is st.facts.canon(x.args[0]) for x in child_reads(l.args[4], l.args[0])):
                    bounds += [st.facts.canon(l.args[1]), st.facts.canon(l.args[2])]
        cuts = [lo]
        for b in bounds:
            if b in cuts or b is hi or b in (lo, hi):
                continue
            i = 0
            while i < len(cuts) and st.facts.value(le(cuts[i], b)) is True:
                i += 1
            if i == 0 or st.facts.value(le(b, hi)) is not True or i < len(cuts) and st.facts.value(le(b, cuts[i])) is not True:
                continue
            cuts.insert(i, b)
        return [mk("sl", base, x, y) for x, y in zip(cuts, cuts[1:] + [hi])]

    def landmarks(self, st, s, lo, hi):
        """[(state, places where a list of children is cut so that children changed before stand alone)]"""
        work = [(st.copy(), [])]
        keys = []
        for a in self.arenas(st):
            for l in self.I.arena_parts(a)[1]:
                if l.op == "w" and st.facts.canon(l.args[0]) not in keys:
                    keys.append(st.facts.canon(l.args[0]))
        for key in keys:
            for kind in ("Leaf", "Internal"):
                ck = self.child_key(key)
                if ck is not None and ck[3] != kind or key is self.R or key.op == "fresh":
                    continue
                if ck is None and kind == "Internal" and st.facts.variant(fn(self.nd(key, self.I.arena_parts(self.arenas(st)[0])[0]), "Node", "parent")) != "Some":
                    continue
                nxt = []
                for s0, cuts in work:
                    for p, s1 in self.find_child(self.I, s0, s, kind, key):
                        if p is None or not feasible(s1):
                            if p is None and feasible(s1):
                                nxt.append((s1, cuts))
                            continue
                        nxt += self.cut_at(s1, cuts, p, lo, hi)
                work = nxt
        return [(s0, [c for i, c in enumerate(cuts) if i == 0 or c is not cuts[i - 1]]) for s0, cuts in work]

    def cut_at(self, st, cuts, p, lo, hi):
        """cut before and behind place p, if it lies between lo and hi: [(state, places)]"""
        out = []
        for a, s in self.I.split_bool(st, le(lo, p)):
            if not feasible(s):
                continue
            for b, s1 in self.I.split_bool(s, lt(p, hi)):
                if not feasible(s1):
                    continue
                if not (a and b):
                    out.append((s1, cuts))
                    continue
                todo = [(s1, 0)]
                while todo:
                    x, i = todo.pop()
                    if i == len(cuts):
                        out += self.place_cut(x, cuts, i, p, lo, hi)
                        continue
                    for c, y in self.I.split_bool(x, le(cuts[i], p)):
                        if feasible(y):
                            if c:
                                todo.append((y, i + 1))
                            else:
                                out += self.place_cut(y, cuts, i, p, lo, hi)
        return out

    def place_cut(self, st, cuts, i, p, lo, hi):
        new = list(cuts[:i])
        q = add(p, num(1))
        for c in (p, q):
            if not (new and new[-1] is c or st.facts.implies(eqi(c, lo)) or st.facts.implies(eqi(c, hi)) or new and st.facts.implies(eqi(c, new[-1]))):
                new.append(c)
        rest = list(cuts[i:])
        while rest and new and st.facts.implies(eqi(rest[0], new[-1])):
            rest.pop(0)
        return [(st, new + rest)]

    def k_end_leaf(self, last):
        def f(I, args, st, site, t, body):
            IN, LN = self.arenas(st)
            ib, lb = I.arena_parts(IN)[0], I.arena_parts(LN)[0]
            ch = fn(I.arena_get(st, IN, self.R), "Node", "children")
            out = []
            for e, s in I.split_bool(st, eqi(length(ch), num(0))):
                if e:
                    out.append((NONE, s))
                    continue
                k = mk("app", "lastleaf" if last else "firstleaf", ib)
                I.assume(s, mk("app", "alive", self.ld(k, lb)))
                p = self.lpar(k, lb)
                if k not in self.leaves:
                    self.leaves.append(k)
                I.assume(s, eqi(self.lslot(k, lb), sub(length(self.children(p, ib)), num(1)) if last else num(0)))
                out.append((some(mk("rec", "LeafIndex", None, (k,))), s))
            return out
        return f

    def neighbour(self, I, st, k, name, site):
        """[(key of the element next to leaf k or None, state)]"""
        IN, LN = self.arenas(st)
        r = mk("app", name, LN, k)
        out = []
        cell = I.arena_get(st, LN, k)
        if cell is DEAD_:
            I.panic_states.append(("neighbour of a removed leaf requested", site, st))
            return []
        node = I.arena_get(st, IN, st.facts.canon(fn(cell, "LeafNode", "parent")))
        work = []
        if node is DEAD_:
            work.append(st.copy())
        else:
            ch = st.facts.canon(fn(node, "Node", "children"))
            for i, s in self.find_child(I, st.copy(), ch, "Leaf", k):
                if i is None:
                    work.append(s)
                    continue
                inside = lt(add(i, num(1)), length(ch)) if name == "next" else lt(num(0), i)
                for more, s2 in I.split_bool(s, inside):
                    if more:
                        a = s2.facts.canon(fn(I.seq_get(s2, ch, add(i, num(1)) if name == "next" else sub(i, num(1))), "Child", "arena"))
                        out.append((s2.facts.canon(a.args[2][0] if a.op == "rec" else fld(a, "Leaf", 0, "0")), s2))
                    else:
                        work.append(s2)
        for s0 in work:
            for vn in ("None", "Some"):
                s = s0.copy()
                if I.assume(s, isvar_(r, vn)):
                    j = mk("app", name + "leaf", LN, k)
                    if vn == "Some" and not I.assume(s, mk("app", "alive", self.ld(j, I.arena_parts(LN)[0]))):
                        continue
                    out.append((None if vn == "None" else j, s))
        return out

    def k_next_elem(self, name):
        def f(I, args, st, site, t, body):
            k = st.facts.canon(fld(fn(args[1], "Cursor", "leaf"), None, 0, "0"))
            return [(NONE if j is None else some(mk("rec", "Cursor", None, (mk("rec", "LeafIndex", None, (j,)), num(0)))), s)
                    for j, s in self.neighbour(I, st, k, name, site)]
        return f

    def k_again(self, depth=3):
        """a function that calls itself after changing the tree is entered again, a few times"""
        def f(I, args, st, site, t, body):
            n = getattr(self, "again", 0)
            if n >= depth:
                raise Limit("recursion of %s" % body.path)
            self.again = n + 1
            try:
                return I.run(body, args, st, site.fid, site.block)
            finally:
                self.again = n
        return f

    def contracts(self):
        return {
            "BTree::recursive_update_cache": self.k_ruc,
            "BTree::split": self.k_split,
            "BTree::last_leaf": self.k_end_leaf(True),
            "BTree::first_leaf": self.k_end_leaf(False),
            "BTree::remove_internal_node": self.k_relink("empty"),
            "BTree::handle_lack_recursively": self.k_relink("lack"),
            "BTree::next_elem": self.k_next_elem("next"),
            "BTree::prev_elem": self.k_next_elem("prev"),
            "BTree::split_leaf_if_needed": self.k_again(),
        }


from .engine import DEAD as DEAD_, isvar as isvar_
