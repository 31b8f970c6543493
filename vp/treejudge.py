"""Judging the heap an operation leaves behind: links, summaries, order, occupancy, returned cursors.

The heap of a path is an arena of layers over the cells of an arbitrary well-formed tree (see tree.py).
Only the cells the path touched, and every list that mentions one, can differ from that tree; they are
checked one by one, and slices of untouched children at a generic index.
"""
from .tree import *
from .engine import DEAD
from . import judge as J

CH = "Child"
KINDS = ["Leaf", "Internal"]


class Ask(Exception):
    """a condition the judgement depends on and the path does not decide"""

    def __init__(self, cond):
        self.cond = cond


class Unclear(Exception):
    pass


def content(e):
    """the elements an element value consists of, as a sequence over its opaque parts"""
    if e.op == "app":
        k = e.args[0]
        if k == "cat":
            return content(e.args[1]) + content(e.args[2])
        if k == "sub":
            return [sl(mkseq(content(e.args[1])), e.args[2], e.args[3])]
        if k == "ins":
            s = mkseq(content(e.args[1]))
            return [sl(s, num(0), e.args[2])] + content(e.args[3]) + [sl(s, e.args[2], length(s))]
    c = mk("app", "content", e)
    return [sl(c, num(0), length(c))]


def _contlen(s):
    if s.op == "app" and s.args[0] == "content":
        return rle_of(s.args[1])
    if s.op == "app" and s.args[0] == "arenas":
        return length(s.args[1])
    return None


TM.LEN_RULES.append(_contlen)


class Out:
    """obligations by property"""

    def __init__(self, sink, tag):
        self.sink = sink
        self.tag = tag
        self.items = []

    def add(self, pid, what, status, msg=""):
        self.items.append((pid, what + ": " + self.tag, status, msg))

    def judge(self, pid, what, v, msg=""):
        self.add(pid, what, "ok" if v is True else "bad" if v is False else "open", msg)

    def flush(self, st):
        hush = any(i[2] == "bad" for i in self.items) and not clean_path(st)
        for pid, what, status, msg in self.items:
            self.sink.put(pid, what, "open" if hush and status == "bad" else status, msg)


def by_cases(T, I, s, sink, tag, body, limit=48):
    """run body(view, out) on the path, splitting it where the judgement needs to know more"""
    work = [s]
    n = 0
    while work:
        x = work.pop()
        out = Out(sink, tag)
        try:
            body(View(T, I, x), out)
            out.flush(x)
        except Ask as q:
            n += 1
            if n > limit:
                for pid in sink.pids:
                    sink.put(pid, "case split: " + tag, "open", "too many cases")
                return
            for pol in (True, False):
                y = x.copy()
                if I.assume(y, q.cond, pol) and feasible(y):
                    work.append(y)
        except Unclear as u:
            out.flush(x)
            for pid in sink.pids:
                sink.put(pid, "shape of the heap: " + tag, "open", str(u))


class View:
    def __init__(self, T, I, s, arenas=None):
        self.T, self.I, self.s = T, I, s
        self.IN, self.LN = arenas or T.arenas(s)
        self.ib, self.il = I.arena_parts(self.IN)
        self.lb, self.ll = I.arena_parts(self.LN)
        if self.ib not in T.pairs or T.pairs[self.ib] is not self.lb:
            raise Unclear("arena %s / %s" % (self.ib.op, self.lb.op))
        C = self.C = s.facts.canon
        known = list(T.leaves)
        for l in self.ll:
            if l.op == "w" and l.args[0] not in known:
                known.append(l.args[0])
        nknown = [C(k) for k in T.nodes] + [C(l.args[0]) for l in self.il if l.op == "w"]
        for l in self.il:
            # children whose stored summary was rewritten
            if l.op != "w" or l.args[1] is DEAD:
                continue
            for g in segs(C(F(l.args[1], "Node", "children"))):
                if g.op == "u" and g.args[0].op == "upd" and any(x[0][2] == "cache" for x in g.args[0].args[1]):
                    ar = C(F(g.args[0], CH, "arena"))
                    if s.facts.variant(ar) == "Internal":
                        nknown.append(C(key_of(ar, "Internal")))
        T.saturate(I, s, known, self.ib, self.lb, [k for i, k in enumerate(nknown) if k not in nknown[:i]])
        self.tin = {}
        for l in self.il:
            if l.op == "w":
                k = C(l.args[0])
                v = I.arena_get(s, self.IN, k)
                if v is not mk("nd", self.ib, k):
                    self.tin[k] = v
        self.tln = {}
        for l in self.ll:
            if l.op == "w":
                k = C(l.args[0])
                v = I.arena_get(s, self.LN, k)
                if v is not mk("nd", self.lb, k):
                    self.tln[k] = v
        self.focus = {C(k) for k in T.leaves if C(k) not in self.tln and not T.gone(C(k), self.lb)}
        self._pieces = {}

    # ------------------------------------------------------------ cells
    def ask(self, cond):
        v = self.s.facts.value(cond)
        if v is None:
            raise Ask(cond)
        return v

    def node(self, k, s=None):
        return self.I.arena_get(s or self.s, self.IN, k)

    def leaf(self, k, s=None):
        return self.I.arena_get(s or self.s, self.LN, k)

    def children(self, k, s=None):
        v = self.node(k, s)
        if v is DEAD:
            raise Unclear("children of a removed node")
        return self.C(F(v, "Node", "children"))

    def children0(self, k):
        return self.T.children(k, self.ib)

    def is_fresh(self, k):
        return k.op == "fresh"

    def parent0_of_leaf(self, k):
        return self.C(self.T.lpar(k, self.lb))

    def slot0_of_leaf(self, k):
        c = self.T.child_key(k)
        return self.C(c[2] if c is not None and c[0] is self.ib else self.T.lslot(k, self.lb))

    def parent0(self, k):
        """initial parent of an internal node, None for the root"""
        p = self.C(fn(mk("nd", self.ib, k), "Node", "parent"))
        n = self.s.facts.variant(p)
        if n is None:
            raise Ask(isvar_(p, "None"))
        if n == "None":
            return None
        return self.C(key_of(fld(p, "Some", 0, "0"), "Internal"))

    def slot0(self, k):
        c = self.T.child_key(k)
        return self.C(c[2] if c is not None and c[0] is self.ib else self.T.pslot(k, self.ib))

    def kind(self, p):
        """kind of the initial children of p"""
        x = fn(el(self.children0(p), num(0)), CH, "arena")
        n = self.s.facts.variant(x)
        if n is None:
            raise Ask(isvar_(x, "Leaf"))
        return n

    # ------------------------------------------------------------ child lists
    def specials(self, p):
        """touched children (and those in focus) of the initial list of p: [(slot, kind, key)]"""
        out = []
        for k in set(self.tln) | {x for x in self.focus}:
            if self.is_fresh(k):
                continue
            if self.parent0_of_leaf(k) is p:
                out.append((self.slot0_of_leaf(k), "Leaf", k))
        for k in self.tin:
            if self.is_fresh(k) or k is self.T.R:
                continue
            if self.kindsafe(p) == "Leaf":
                continue
            if self.parent0(k) is p:
                out.append((self.slot0(k), "Internal", k))
        return out

    def kindsafe(self, p):
        x = fn(el(self.children0(p), num(0)), CH, "arena")
        return self.s.facts.variant(x)

    def split_list(self, seq):
        """segments of a child list, every touched child on its own: [(op, ...)]"""
        out = []
        for g in segs(self.C(seq)):
            if g.op != "sl":
                out.append(g)
                continue
            b, lo, hi = g.args
            c = self.T.is_children(b)
            if c is None or c[0] is not self.ib:
                out.append(g)
                continue
            cuts = []
            for slot, kind, k in self.specials(c[1]):
                if self.ask(le(lo, slot)) and self.ask(lt(slot, hi)):
                    cuts.append((slot, kind, k))
            # order the cuts
            order = []
            for x in cuts:
                i = 0
                while i < len(order) and self.ask(lt(order[i][0], x[0])):
                    i += 1
                order.insert(i, x)
            pos = lo
            for slot, kind, k in order:
                if not (pos is slot) and self.s.facts.value(lt(pos, slot)) is not False:
                    out.append(sl(b, pos, slot))
                out.append(mk("u", mk("one", b, slot, kind, k)))
                pos = self.C(add(slot, num(1)))
            if not (pos is hi) and self.s.facts.value(lt(pos, hi)) is not False:
                out.append(sl(b, pos, hi))
        return out

    def child(self, x):
        """(child value, kind, key) of a unit"""
        if x.op == "one":
            b, slot, kind, k = x.args
            return el(b, slot), kind, k
        ar = self.C(F(x, CH, "arena"))
        n = self.s.facts.variant(ar)
        if n is None:
            raise Ask(isvar_(ar, "Leaf"))
        return x, n, self.C(key_of(ar, n))

    def pieces(self, k):
        """final child list: [(segment, position)]"""
        r = self._pieces.get(k)
        if r is None:
            r = []
            pos = num(0)
            for g in self.split_list(self.children(k)):
                r.append((g, pos))
                pos = add(pos, seglen(g))
            self._pieces[k] = r
        return r

    # ------------------------------------------------------------ which nodes matter
    def nodes(self):
        N = []

        def addn(k):
            k = self.C(k)
            if k not in N and self.tin.get(k) is not DEAD:
                N.append(k)
        for k, v in self.tin.items():
            addn(k)
            if v is DEAD:
                if k is not self.T.R and not self.is_fresh(k):
                    p = self.parent0(k)
                    if p is not None:
                        addn(p)
                continue
            p = self.C(F(v, "Node", "parent"))
            n = self.s.facts.variant(p)
            if n is None:
                raise Ask(isvar_(p, "None"))
            if n == "Some":
                addn(key_of(fld(p, "Some", 0, "0"), "Internal"))
            if not self.is_fresh(k):
                q = self.parent0(k)
                if q is not None:
                    addn(q)
        for k, v in self.tln.items():
            if v is not DEAD:
                addn(F(v, "LeafNode", "parent"))
            if not self.is_fresh(k):
                addn(self.parent0_of_leaf(k))
        for k in self.focus:
            if not self.is_fresh(k):
                addn(self.parent0_of_leaf(k))
        for l in self.il + self.ll:
            if l.op == "fa":
                bv, lo, hi, gs, key, val = l.args
                c = self.T.child_key(key)
                if c is not None:
                    addn(c[1])
                if val.op == "upd":
                    for fk, x in val.args[1]:
                        if fk[2] == "parent":
                            q = x
                            if q.op == "rec" and q.args[0] == OPT:
                                if q.args[1] == "None":
                                    continue
                                q = key_of(q.args[2][0], "Internal")
                            if not mentions(q, bv):
                                addn(q)
        return N

    # ------------------------------------------------------------ C01
    def links(self, out, loose=()):
        """every listed child points back; `loose`: freshly built nodes nothing lists yet"""
        I = self.I
        for n in self.nodes():
            for g, pos in self.pieces(n):
                if g.op == "u":
                    c, kind, k = self.child(g.args[0])
                    self.link(out, self.s, n, kind, k, pos, "child", FALSE)
                elif g.op == "sl":
                    b = mk("bv", "ln")
                    s = self.s.copy()
                    if not (I.assume(s, le(g.args[1], b)) and I.assume(s, lt(b, g.args[2]))) or not feasible(s):
                        continue
                    ar = fn(I.seq_get(s, g.args[0], b), CH, "arena")
                    for vn, _, s2 in I.split_variant(s, ar, KINDS):
                        if feasible(s2):
                            self.link(out, s2, n, vn, key_of(ar, vn), add(pos, sub(b, g.args[1])), "children kept in a row", b)
                else:
                    out.add("C01", "listed child", "open", "segment %s" % g)
        # the other direction
        for k, v in self.tin.items():
            if v is DEAD or k in loose:
                continue
            p = self.C(F(v, "Node", "parent"))
            if p is NONE:
                if k is not self.T.R:
                    out.add("C01", "only the root has no parent", "bad" if clean_path(self.s) else "open", "node %s" % k)
                continue
            if self.s.facts.variant(p) != "Some":
                continue
            q = self.C(key_of(fld(p, "Some", 0, "0"), "Internal"))
            if self.node(q) is DEAD:
                out.add("C01", "parent exists", "bad" if clean_path(self.s) else "open", "node %s names removed parent %s" % (k, q))
                continue
            if any(g.op == "u" and self.child(g.args[0])[1:] == ("Internal", k) for g, _ in self.pieces(q)):
                out.add("C01", "parent lists the node", "ok")
            else:
                out.add("C01", "parent lists the node", "bad" if self.known(q) else "open", "node %s is not among the children of its parent %s" % (k, q))
        for k, v in self.tln.items():
            if v is DEAD:
                continue
            q = self.C(F(v, "LeafNode", "parent"))
            if self.node(q) is DEAD:
                out.add("C01", "parent exists", "bad" if clean_path(self.s) else "open", "leaf %s names removed parent %s" % (k, q))
                continue
            n = sum(1 for g, _ in self.pieces(q) if g.op == "u" and self.child(g.args[0])[1:] == ("Leaf", k))
            out.judge("C01", "parent lists the leaf", True if n == 1 else False if self.known(q) else None,
                      "leaf %s is listed %d times by its parent %s" % (k, n, q))
            out.judge("C05", "every leaf kept is listed once", True if n == 1 else False if self.known(q) else None,
                      "leaf %s is listed %d times by its parent %s" % (k, n, q))
        me = self.T.now(self.s)
        r = self.C(fn(me, "BTree", "root"))
        if self.T.R in self.tin:
            p = self.C(F(self.node(self.T.R), "Node", "parent")) if self.node(self.T.R) is not DEAD else None
            if r is self.T.inode(self.T.R):
                out.judge("C01", "the root has no parent", J.equal(I, self.s, p, NONE) if p is not None else False, "root parent %s" % p)

    def known(self, q):
        """the final list of q is made of pieces the analysis knows"""
        return clean_path(self.s) and all(g.op in ("u", "sl") and not g.unk for g, _ in self.pieces(q))

    def link(self, out, s, n, kind, k, pos, what, b):
        I = self.I
        if kind == "Leaf":
            cell = self.leaf(k, s)
            if cell is DEAD:
                for pid in ("C01", "C05"):
                    out.judge(pid, "listed leaf exists", J.definite(s, False), "node %s lists removed leaf %s" % (n, k))
                return
            got = F(cell, "LeafNode", "parent")
            out.judge("C01", "leaf names its parent (%s)" % what, J.equal(I, s, got, n), "leaf %s: parent %s, listed by %s" % (k, got, n))
        else:
            cell = self.node(k, s)
            if cell is DEAD:
                out.judge("C01", "listed node exists", J.definite(s, False), "node %s lists removed node %s" % (n, k))
                return
            got = F(cell, "Node", "parent")
            out.judge("C01", "node names its parent (%s)" % what, J.equal(I, s, got, some(self.T.inode(n))),
                      "node %s: parent %s, listed by %s" % (k, got, n))
            got = F(cell, "Node", "parent_slot")
            out.judge("C01", "node knows its slot (%s)" % what, J.equal(I, s, got, pos), "node %s: slot %s, listed at %s" % (k, got, pos))

    # ------------------------------------------------------------ C04
    def occupancy(self, out, full=(), empty=(), loose=()):
        full, empty = [self.C(x) for x in full], [self.C(x) for x in empty]
        for n in self.nodes():
            c = self.children(n)
            ln = self.C(length(c))
            if n not in full:
                out.judge("C04", "no node is left full", J.entails(self.s, sub(num(self.T.MAX - 1), ln)), "node %s is left with %s children" % (n, ln))
            else:
                out.judge("C04", "no node exceeds its capacity", J.entails(self.s, sub(num(self.T.MAX), ln)), "node %s has %s children" % (n, ln))
            if n is not self.T.R and n not in empty and self.children0_or_none(n) is not c:
                out.judge("C16", "no empty node is left", J.entails(self.s, sub(ln, num(1))), "node %s is left with %s children" % (n, ln))

    def children0_or_none(self, n):
        return None if self.is_fresh(n) else self.C(self.children0(n))

    # ------------------------------------------------------------ C02
    def entry_of(self, n):
        """(cache value in the parent's list, parent, explicit?) of internal node n"""
        v = self.node(n)
        p = self.C(F(v, "Node", "parent"))
        vn = self.s.facts.variant(p)
        if vn is None:
            raise Ask(isvar_(p, "None"))
        if vn == "None":
            c = self.C(fn(self.T.now(self.s), "BTree", "root_cache"))
            return c, None, c is not self.C(fn(self.T.me, "BTree", "root_cache"))
        q = self.C(key_of(fld(p, "Some", 0, "0"), "Internal"))
        for g, _ in self.pieces(q):
            if g.op == "u":
                c, kind, k = self.child(g.args[0])
                if kind == "Internal" and k is n:
                    e = self.C(F(c, CH, "cache"))
                    init = not self.is_fresh(n) and n is not self.T.R and self.parent0(n) is not None and \
                        e is self.C(fn(el(self.children0(self.parent0(n)), self.slot0(n)), CH, "cache"))
                    return e, q, not init
        if not self.is_fresh(n) and n in self.tin or self.is_fresh(n):
            return None, q, True
        return None, q, False

    def above(self, n):
        """ancestors of n the analysis can name, as the tree was and as it is"""
        out = []
        for fin in (True, False):
            k = n
            for _ in range(4):
                if fin or self.is_fresh(k):
                    v = self.node(k)
                    if v is DEAD:
                        break
                    p = self.C(F(v, "Node", "parent"))
                else:
                    p = self.C(fn(mk("nd", self.ib, k), "Node", "parent"))
                if self.s.facts.variant(p) != "Some" and p.op != "rec":
                    if k is self.T.R:
                        break
                    q = self.C(self.T.par(k, self.ib)) if self.s.facts.variant(p) != "None" else None
                    if q is None:
                        break
                else:
                    if p is NONE:
                        break
                    q = self.C(key_of(fld(p, "Some", 0, "0"), "Internal"))
                if q in out:
                    break
                out.append(q)
                k = q
        return out

    def summaries(self, out, stale_ok=()):
        I, th, s = self.I, self.T.th, self.s
        N = self.nodes()
        events = [e for e in s.log if e[0] == "ruc" and e[1] is self.ib]
        # leaf entries
        for n in N:
            for g, pos in self.pieces(n):
                if g.op != "u":
                    continue
                c, kind, k = self.child(g.args[0])
                if kind == "Leaf":
                    cell = self.leaf(k)
                    if cell is DEAD:
                        continue
                    e = F(cell, "LeafNode", "elem")
                    e0 = None if self.is_fresh(k) else self.T.elem0(k, self.lb)
                    got = self.C(F(c, CH, "cache"))
                    if g.args[0].op == "one" and self.C(e) is self.C(e0):
                        continue
                    out.judge("C02", "a leaf's stored summary describes it", J.equal(I, s, got, th.ec(self.C(e))),
                              "leaf %s: stored %s, element %s" % (k, got, e))
        # node entries
        changed = []
        for n in N:
            c = self.children(n)
            if self.is_fresh(n) or c is not self.C(self.children0(n)):
                changed.append(n)
        if th.use_diff:
            delta = {}
            for e in events:
                n = self.C(e[2])
                targets = [n] + [a for a in self.above(n) if a is not n]
                if e[3] is None:
                    snap = e[4]
                    d = sub(th.cc(snap), add(self.cc0(n), delta.get(n, num(0))))
                    for x in N:
                        # stored summaries of nodes below, changed earlier, are in the list already
                        pass
                else:
                    d = e[3]
                for x in targets:
                    delta[x] = add(delta.get(x, num(0)), d)
                delta["root"] = add(delta.get("root", num(0)), d)
            for n in changed:
                if n in stale_ok:
                    continue
                want = th.cc(self.children(n))
                for g, _ in self.pieces(n):
                    if g.op == "u":
                        c, kind, k = self.child(g.args[0])
                        if kind == "Internal" and k in delta and not self.entry_of(k)[2]:
                            want = add(want, delta[k])
                e, q, explicit = self.entry_of(n)
                if explicit:
                    if e is None:
                        out.add("C02", "a node's stored summary is found", "open", "node %s" % n)
                        continue
                    got = e
                else:
                    got = add(self.cc0(n), delta.get("root" if q is None else n, num(0)))
                out.judge("C02", "a changed node's stored summary is that of its children", J.equal(I, s, got, want),
                          "node %s: stored %s, children sum to %s" % (n, got, want))
        else:
            for n in changed:
                if n in stale_ok:
                    continue
                cur = self.children(n)
                e, q, explicit = self.entry_of(n)
                if explicit:
                    if e is None:
                        out.add("C02", "a node's stored summary is found", "open", "node %s" % n)
                        continue
                    out.judge("C02", "a changed node's stored summary is that of its children", J.equal(I, s, e, th.cc(cur)),
                              "node %s: stored %s, children %s" % (n, e, cur))
                    continue
                last = None
                for ev in events:
                    m = self.C(ev[2])
                    if m is n or n in self.above(m):
                        last = ev
                if last is None:
                    out.judge("C02", "a changed node's stored summary is recomputed", J.definite(s, False, cur), "node %s changed, nothing recomputes its summary" % n)
                    continue
                snap = F(I.arena_get(s, last[5], n), "Node", "children")
                out.judge("C02", "a changed node's stored summary is recomputed", J.equal(I, s, th.cc(self.C(snap)), th.cc(cur)),
                          "node %s: summary taken of %s, children now %s" % (n, snap, cur))

    def cc0(self, n):
        return num(0) if self.is_fresh(n) else self.T.th.cc(self.C(self.children0(n)))

    # ------------------------------------------------------------ C03 / C05 / C10: order
    def flat_list(self, seq, final, depth=0):
        if depth > 4:
            raise Unclear("nesting")
        out = []
        for g in self.split_list(seq):
            if g.op == "sl":
                out.append(sl(mk("app", "arenas", g.args[0]), g.args[1], g.args[2]))
                continue
            if g.op != "u":
                out.append(g)
                continue
            c, kind, k = self.child(g.args[0])
            if kind == "Leaf":
                if k in self.focus or k in self.tln:
                    if final:
                        v = self.leaf(k)
                        if v is DEAD:
                            out.append(mk("u", mk("app", "removed", k)))
                        else:
                            out += self.leafcont(k, F(v, "LeafNode", "elem"))
                    else:
                        out += self.leafcont(k, self.T.elem0(k, self.lb))
                    continue
            elif final:
                v = self.node(k)
                if v is DEAD:
                    out.append(mk("u", mk("app", "removed", k)))
                    continue
                if self.is_fresh(k) or self.C(F(v, "Node", "children")) is not self.C(self.children0(k)):
                    out += self.flat_list(F(v, "Node", "children"), True, depth + 1)
                    continue
            elif k in self.tin:
                v = self.tin[k]
                if v is DEAD or self.C(F(v, "Node", "children")) is not self.C(self.children0(k)):
                    out += self.flat_list(self.children0(k), False, depth + 1)
                    continue
            a = self.C(F(c, CH, "arena"))
            if a.op == "fld" and a.args[3] == "arena" and a.args[0].op == "el":
                b, i = a.args[0].args
                out.append(sl(mk("app", "arenas", b), i, add(i, num(1))))
            elif g.args[0].op == "one":
                b, i = g.args[0].args[:2]
                out.append(sl(mk("app", "arenas", b), i, add(i, num(1))))
            else:
                out.append(mk("u", a))
        return out

    def leafcont(self, k, e):
        return content(self.C(e))

    def regions(self, extra=()):
        """topmost nodes whose list changed"""
        ch = []
        for n in self.nodes():
            if self.is_fresh(n):
                continue
            if self.C(self.children(n)) is not self.C(self.children0(n)) or n in extra:
                ch.append(n)
        for k in self.tln:
            if not self.is_fresh(k):
                p = self.parent0_of_leaf(k)
                if p not in ch and self.tin.get(p) is not DEAD:
                    ch.append(p)
        for x in extra:
            if x not in ch:
                ch.append(x)
        top = []
        for n in ch:
            p = None if n is self.T.R else self.parent0(n)
            if p is not None and p in ch:
                continue
            top.append(n)
        return top

    def order(self, out, expect=None, pid="C03", rule="elements keep their order"):
        """expect: {leaf key: segments its content is replaced by}, or {None: segments} for an empty tree"""
        expect = expect or {}
        I, s = self.I, self.s
        extra = []
        for k in expect:
            if k is not None:
                self.focus.add(k)
                extra.append(self.parent0_of_leaf(k))
            else:
                extra.append(self.T.R)
        self._pieces = {}
        for n in self.regions(tuple(extra)):
            fin = self.flat_list(self.children(n), True)
            if None in expect and n is self.T.R:
                want = list(expect[None])
            else:
                want = self.flat0(n, expect)
            a, b = mkseq(fin), mkseq(want)
            out.judge(pid, rule, J.equal(I, s, a, b), "below %s: got %s, want %s" % (n, a, b))

    def flat0(self, n, expect):
        keep = self.leafcont
        T = self.T

        def lc(k, e):
            if k in expect:
                return list(expect[k])
            return keep(k, e)
        self.leafcont = lc
        try:
            return self.flat_list(self.children0(n), False)
        finally:
            self.leafcont = keep

    def before(self, k, off):
        """(region, segments before offset `off` of leaf k) in the final heap"""
        v = self.leaf(k)
        if v is DEAD:
            return None
        p = self.C(F(v, "LeafNode", "parent"))
        segs_ = []
        for g, _ in self.pieces(p):
            if g.op == "u":
                c, kind, kk = self.child(g.args[0])
                if kind == "Leaf" and kk is k:
                    e = mkseq(content(self.C(F(v, "LeafNode", "elem"))))
                    return p, segs_ + [sl(e, num(0), off)]
                segs_ += self.flat_list(mkseq([g]) if g.args[0].op != "one" else mkseq([unit(el(*g.args[0].args[:2]))]), True)
            else:
                segs_ += self.flat_list(mkseq([g]), True)
        return None


def _el_arenas(s, i):
    if s.op == "app" and s.args[0] == "arenas":
        return F(el(s.args[1], i), CH, "arena")
    return None


TM.EL_RULES.append(_el_arenas)


def key_of(a, variant):
    if a.op == "rec" and a.args[0] == AI:
        return a.args[2][0]
    return fld(a, variant, 0, "0")


def isvar_(v, n):
    from .engine import isvar
    return isvar(v, n)
