"""The ordered map and set on top of the tree."""
from .p_tree import *

MAP, SET = "generic_impl::ord::OrdTreeMap", "generic_impl::ord::OrdTreeSet"
IN_MAP = ((MAP, "tree"),)
IN_SET = ((SET, "0"), (MAP, "tree"))


class Sorted(Free):
    """the summary of an element is made of its key"""
    name = "summaries of keys"

    def ec(self, e):
        return mk("app", "ec", key_in(e))


def entry(e):
    return fld(e, None, 0, "0")


def key_in(e):
    return fld(entry(e), None, 0, "0")


class OrdOp(OneOp):
    """every element has length one; a search ends at the element with the key, or next to its sorted place"""

    def __init__(self, prog, rep, sink, path, inside, label, **kw):
        super().__init__(prog, rep, sink, Sorted(), path, {"BTree::query": self.k_query, "BTree::remove_leaf": self.k_remove}, label=label, inside=inside, **kw)

    def __enter__(self):
        super().__enter__()
        TM.ATOM_FACTS.append(lambda a: [sub(a, num(1)), sub(num(1), a)] if a.op == "app" and a.args[0] == "rle" else [])
        me = val("self")
        for _, _, i, name in self.T.home[1][:-1]:
            me = fld(me, None, i, name)
        self.len0 = fn(me, MAP, "len")
        return self

    def len_now(self, s):
        root, path = self.T.home
        return fn(self.I.deref(s, mkref(root, path[:-1])), MAP, "len")

    def start(self):
        st = self.T.start(self.I)
        # the count is the number of elements
        for e, s in self.I.split_bool(st, eqi(length(self.T.children(self.T.R)), num(0))):
            self.I.assume(s, eqi(self.len0, num(0)) if e else le(num(1), self.len0))
            yield e, s

    def k_query(self, I, args, st, site, t, body):
        T = self.T
        q = I.deref(st, args[1])
        st.ev("query", q)
        IN, LN = T.arenas(st)
        if I.arena_parts(IN)[0] is not T.IN0 or IN is not T.IN0:
            raise Limit("search of a changed tree")
        out = []
        for e, s in I.split_bool(st, eqi(length(T.children(T.R)), num(0))):
            if e:
                out.append((NONE, s))
                continue
            k = self.k = sym("k")
            for found, off, c in ((True, 0, lambda a, b: eqi(a, b)), (False, 0, lambda a, b: lt(a, b)), (False, 1, lambda a, b: lt(b, a))):
                s2 = s.copy()
                if not (I.assume(s2, mk("app", "alive", T.ld(k))) and I.assume(s2, c(q, key_in(T.elem0(k))))):
                    continue
                d = {"cursor": mkcursor(k, num(off)), "found": TRUE if found else FALSE}
                s2.ev("answer", found, k, num(off))
                out.append((some(mk("rec", "QueryResult", None, tuple(d[n] for n in FIELDS["QueryResult"]))), s2))
        return out

    def k_remove(self, I, args, st, site, t, body):
        T = self.T
        k = st.facts.canon(cursor_of(args[1])[0])
        IN, LN = T.arenas(st)
        out = []
        cell = I.arena_get(st, LN, k)
        if cell is DEAD:
            return [(NONE, st)]
        for a, s in I.split_bool(st, mk("app", "alive", cell) if cell.op == "nd" else TRUE):
            if not a:
                out.append((NONE, s))
                continue
            s.ev("removed", k)
            out.append((some(fn(cell, "LeafNode", "elem")), s))
        return out


def answer(s):
    a = [e for e in s.log if e[0] == "answer"]
    return a[-1][1:] if a else None


def ord_insert(path, inside, label, unit_value):
    def f(prog, rep, sink):
        with OrdOp(prog, rep, sink, path, inside, label) as op:
            T, I = op.T, op.I
            k, v = sym("key"), sym("value")
            for empty, st in op.start():
                for r, s in op.run([ref("self"), k] + ([] if unit_value else [v]), st):
                    val_ = UNIT if unit_value else v
                    data = mk("rec", "generic_impl::ord::Unmergeable", None, (tup(k, val_),))
                    a = answer(s)
                    for e in s.log:
                        if e[0] == "query":
                            op.judge("C09", "the key given is the one searched for", s, e[1], k)
                    if empty:
                        heap_after(op, r, s, "", {None: content(data)})
                        op.judge("C09", "a new key raises the count by one", s, op.len_now(s), add(op.len0, num(1)))
                    elif a is None:
                        op.judge_known("C09", "an insertion searches for the key", s, None)
                    elif not a[0]:
                        T.leaves = [a[1]]
                        c = content(T.elem0(a[1]))
                        heap_after(op, r, s, "", {a[1]: [sl(mkseq(c), num(0), a[2])] + content(data) + [sl(mkseq(c), a[2], num(1))]})
                        op.judge("C09", "a new key raises the count by one", s, op.len_now(s), add(op.len0, num(1)))
                    else:
                        IN, LN = T.arenas(s)
                        e = fn(I.arena_get(s, LN, a[1]), "LeafNode", "elem")
                        op.judge("C09", "a present key keeps its place", s, key_in(e), key_in(T.elem0(a[1])))
                        if not unit_value:
                            op.judge("C09", "a present key gets the new value", s, fld(entry(e), None, 1, "1"), v)
                        op.judge("C09", "a present key keeps the count", s, op.len_now(s), op.len0)
                        op.judge("C09", "a present key changes no other element", s,
                                 [l for l in I.arena_parts(LN)[1] if l.op != "w" or l.args[0] is not a[1]] and mk("const", "others", "") or UNIT, UNIT)
                        op.judge("C09", "a present key changes no node", s, IN, T.IN0)
    f.__name__ = label.replace("::", "_")
    return part("C09", *HEAP)(f)


ord_insert("OrdTreeMap::insert", IN_MAP, "OrdTreeMap::insert", False)
ord_insert("OrdTreeSet::insert", IN_SET, "OrdTreeSet::insert", True)


def ord_delete(path, inside, label, told):
    def f(prog, rep, sink):
        with OrdOp(prog, rep, sink, path, inside, label) as op:
            T, I = op.T, op.I
            k = sym("key")
            for empty, st in op.start():
                for r, s in op.run([ref("self"), mkref(("O", k), ())], st):
                    a = answer(s)
                    for e in s.log:
                        if e[0] == "query":
                            op.judge("C09", "the key given is the one searched for", s, e[1], mk("deref", k))
                    gone = [e[1] for e in s.log if e[0] == "removed"]
                    if a is not None and a[0]:
                        op.judge_known("C09", "a present key is removed", s, len(gone) == 1)
                        for g in gone:
                            op.judge("C09", "the element with the key is the one removed", s, g, a[1])
                        op.judge("C09", "a removed key lowers the count by one", s, op.len_now(s), sub(op.len0, num(1)))
                        op.judge("C09", "a removed key is reported", s, r, some(entry(T.elem0(a[1]))) if told else TRUE)
                    else:
                        for pid in ("C09", "C21"):
                            op.judge_known(pid, "an absent key removes nothing", s, not gone)
                            op.judge(pid, "an absent key keeps the count", s, op.len_now(s), op.len0)
                            op.judge(pid, "an absent key changes nothing", s, T.now(s), T.me)
                            op.judge(pid, "an absent key is reported", s, r, NONE if told else FALSE)
                        if empty:
                            op.judge("C20", "an empty tree reports nothing removed", s, r, NONE if told else FALSE)
    f.__name__ = label.replace("::", "_")
    return part("C09", "C20", "C21")(f)


ord_delete("OrdTreeMap::delete", IN_MAP, "OrdTreeMap::delete", True)
ord_delete("OrdTreeSet::delete", IN_SET, "OrdTreeSet::delete", False)


def ord_count(path, inside, label, what):
    def f(prog, rep, sink):
        with OrdOp(prog, rep, sink, path, inside, label) as op:
            for empty, st in op.start():
                for r, s in op.run([ref("self")], st):
                    if what == "len":
                        op.judge("C09", "the count is reported", s, r, op.len0)
                    else:
                        op.judge("C09", "emptiness is reported", s, r, TRUE if empty else FALSE)
    f.__name__ = label.replace("::", "_")
    return part("C09", "C20")(f)


for _ty, _in in (("OrdTreeMap", IN_MAP), ("OrdTreeSet", IN_SET)):
    for _m in ("len", "is_empty"):
        ord_count("%s::%s" % (_ty, _m), _in, "%s::%s" % (_ty, _m), _m)
