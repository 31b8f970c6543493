"""Abstract interpreter over the MIR facts: trace-partitioned value numbering.

A state maps memory roots to value terms and carries path facts and an event log. Local callees
are entered through summaries computed on the spot (virtual inlining) unless a contract is given.
Loops are abstracted by anti-unification of the states at the loop head: counters become linear in
the iteration number, vectors grown by a loop become generated segments, heap cells written once
per iteration become universally quantified layers, anything else becomes an unknown loop value.
Nothing is executed and no solver is consulted.
"""
import json
import os
import re
import sys
from .terms import *
from . import terms as TM

sys.setrecursionlimit(20000)


def norm(path):
    """drop generic arguments and impl wrappers from a path"""
    out = []
    d = 0
    i = 0
    while i < len(path):
        c = path[i]
        if c == "<":
            d += 1
        elif c == ">" and path[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


class Body:
    def __init__(self, d, prog):
        self.d = d
        self.id = d["id"]
        self.path = d["path"]
        self.np = norm(d["path"]) if not d["path"].startswith("<") else d["path"]
        self.argc = d["argc"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.file = d["span"][0]
        self.prog = prog
        self._cfg()

    def __repr__(self):
        return "Body(%s)" % self.path

    @property
    def ext(self):
        return self.file.startswith("/")

    def line(self, b):
        if isinstance(b, int) and 0 <= b < len(self.blocks):
            sp = self.blocks[b]["t"].get("span")
            return sp[1] if sp else None
        return None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        if k == "switch":
            r = []
            for _, x in t["ts"]:
                if x not in r:
                    r.append(x)
            if t["o"] not in r:
                r.append(t["o"])
            return r
        return []

    def _cfg(self):
        n = len(self.blocks)
        seen = set()
        order = []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succs(b):
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += preds[x]
        self._live()

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _live(self):
        """live locals at block entry; locals whose address is taken stay live"""
        use = {}
        dfn = {}
        addr = set()
        for b in self.order:
            u = set()
            d = set()

            def use_place(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def use_op(o):
                if o[0] in ("c", "m"):
                    use_place(o[1])

            def use_rv(r):
                k = r[0]
                if k == "use" or k == "repeat":
                    use_op(r[1])
                elif k in ("ref", "reborrow"):
                    use_place(r[2])
                    if "*" not in r[2][1]:
                        addr.add(r[2][0])
                elif k == "rawptr":
                    use_place(r[1])
                    if "*" not in r[1][1]:
                        addr.add(r[1][0])
                elif k == "bin":
                    use_op(r[2])
                    use_op(r[3])
                elif k == "un":
                    use_op(r[2])
                elif k == "cast":
                    use_op(r[2])
                elif k == "discr":
                    use_place(r[1])
                elif k == "agg":
                    for o in r[2]:
                        use_op(o)

            def def_place(p):
                if p[1]:
                    use_place(p)
                else:
                    d.add(p[0])

            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    use_rv(s[2])
                    def_place(s[1])
                else:
                    use_place(s[1])
            t = self.blocks[b]["t"]
            if t["k"] == "switch":
                use_op(t["d"])
            elif t["k"] == "drop":
                if t["p"][1]:
                    use_place(t["p"])
            elif t["k"] == "call":
                use_op(t["f"])
                for o in t["args"]:
                    use_op(o)
                def_place(t["dst"])
            elif t["k"] == "assert":
                use_op(t["c"])
            elif t["k"] == "return":
                u.add(0) if 0 not in d else None
            use[b] = u
            dfn[b] = d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succs(b):
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.addr = addr | set(range(1, self.argc + 1))


def signature(body):
    """the types of the parameters and the result, without lifetimes"""
    return [re.sub(r"'\w+ ?|<'_>|'_,? ?", "", l["ty"].get("s", "")) for l in [body.locals[i] for i in range(body.argc + 1)]]


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.bodies = {}
        self.ext = {}
        self.by_path = {}
        for b in d["bodies"]:
            B = Body(b, self)
            self.bodies[B.id] = B
            self.by_path.setdefault(B.path, []).append(B)
        for b in d.get("ext_bodies", []):
            self.ext[b["id"]] = b
        self._extb = {}
        from .judge import FIELDS
        for a in d["adts"]:
            if not a["enum"]:
                FIELDS[a["path"]] = [f["name"] for f in a["variants"][0]["fields"]]
        self.recursive = self._rec()
        known = os.path.join(os.path.dirname(__file__), "signatures.json")
        self.signatures = json.load(open(known)) if os.path.exists(known) else {}

    def reshaped(self, body):
        """the function takes or gives other types than when its contract was written"""
        want = self.signatures.get(body.np)
        return want is not None and body.d["kind"] != "Closure" and signature(body) != want

    def extbody(self, id):
        if id in self._extb:
            return self._extb[id]
        b = self.ext.get(id)
        r = Body(b, self) if b else None
        self._extb[id] = r
        return r

    def find(self, suffix):
        """the unique body whose generics-free path ends with `suffix`"""
        r = [b for b in self.bodies.values() if b.np == suffix or b.np.endswith("::" + suffix)]
        return r[0] if len(r) == 1 else None

    def method(self, ty, name, trait=None):
        for b in self.bodies.values():
            s = b.d.get("impl_self")
            if s and b.d["name"] == name and s.get("adt") == ty and b.d["kind"] == "AssocFn":
                tr = b.d.get("impl_trait")
                if trait is None and tr is None or trait and tr and (tr == trait or tr.endswith("::" + trait)):
                    return b
        return None

    def _rec(self):
        g = {}
        for b in self.bodies.values():
            s = set()
            for bl in b.order:
                t = b.blocks[bl]["t"]
                if t["k"] == "call" and t["f"][0] == "k" and t["f"][1].get("fn"):
                    f = t["f"][1]["fn"]
                    i = f.get("rid") or f["id"]
                    if i in self.bodies:
                        s.add(i)
                for st in b.blocks[bl]["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and st[2][1].get("closure"):
                        s.add(st[2][1]["closure"])
            g[b.id] = s
        self.callgraph = g
        rec = set()
        for i in g:
            seen = set()
            st = list(g[i])
            while st:
                x = st.pop()
                if x == i:
                    rec.add(i)
                    break
                if x not in seen:
                    seen.add(x)
                    st += list(g.get(x, ()))
        return rec


class State:
    __slots__ = ("store", "facts", "log", "dead")

    def __init__(self):
        self.store = {}
        self.facts = Facts()
        self.log = ()
        self.dead = False

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.log = self.log
        return s

    def ev(self, *e):
        self.log = self.log + (e,)


DEAD = mk("dead")
LOCALROOT = "L"


def mkref(root, path):
    return mk("ref", root, tuple(path))


class Limit(Exception):
    pass


class Interp:
    nomerge = False

    def __init__(self, prog, contracts=None, max_states=60000):
        self.prog = prog
        self.contracts = contracts or {}
        self.stack = []
        self.calledby = {}
        self.unmodelled = {}
        self.imprecise = {}
        self.steps = 0
        self.max_states = max_states
        self.loops = {}
        self.frames = {}
        self.loopks = []
        self.visited = set()  # (body id, block) analysed
        self.cap_events = []
        self.assume_hooks = []
        self.panic_states = None
        self.trace_writes = None
        self.alive_rules = []
        self.search_rules = []
        self.exit_rules = []
        self.casecuts = False
        self.theory = None
        self.landmarks = None      # places of a list whose cells were changed one by one
        self.stretches = None      # cuts a slice where its elements stop being alike
        self.loopinfo = []

    def after_rounds(self, st, every, k):
        """rounds 0..k of a loop have all established `every`: can it still be in this state?"""
        return all(rule(self, st, every, k) is not False for rule in self.exit_rules)

    def mark(self):
        return len(self.panic_states or ()), len(self.cap_events)

    def reset(self, m):
        if self.panic_states is not None:
            del self.panic_states[m[0]:]
        del self.cap_events[m[1]:]

    def note(self, why):
        self.imprecise[why] = self.imprecise.get(why, 0) + 1
        return unk(why)

    # ------------------------------------------------------------ memory
    def chain(self, site):
        """the calls of the crate that lead to a place"""
        out = []
        f = site.fid
        blk = site.block
        while f in self.calledby:
            caller, b, body = self.calledby[f]
            if not body.ext:
                sp = body.line(blk)
                out.append("%s%s" % (body.np.split("::")[-1], ":%s" % sp if sp else ""))
            blk = b[0] if isinstance(b, tuple) else b
            f = caller
        return " < ".join(out) or str(site)

    def fid(self, parent, site, bid):
        key = (parent, site, bid)
        f = self.frames.get(key)
        if f is None:
            f = len(self.frames) + 1
            self.frames[key] = f
        return f

    def rootval(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == "O":
                v = mk("deref", root[1])
            elif root[0] == "K":
                v = root[1]
            else:
                v = mk("uninit", root[1], root[2])
        return v

    def read(self, st, root, path):
        v = self.rootval(st, root)
        for i, s in enumerate(path):
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        k = s[0]
        if k == "f":
            if v.op not in ("rec", "upd", "fld", "sym"):
                c = st.facts.canon(v)
                if c.op == "rec":
                    v = c
            r = fld(v, s[1], s[2], s[3])
            if r.op == "fld" and st.facts.eqs:
                c = st.facts.canon(r)
                if c.op == "rec" or c.op == "ref":
                    return c
            return r
        if k == "at":
            return self.seq_get(st, v, s[1])
        if k == "node":
            return self.arena_get(st, v, s[1])
        if k == "sub":
            return self.seq_slice(st, v, s[1], s[2])
        if k == "mapv":
            return self.map_get(st, v, s[1])
        raise Exception("step %r" % (s,))

    def write(self, st, root, path, val):
        if not path:
            st.store[root] = val
            return
        v = self.rootval(st, root)
        st.store[root] = self.setpath(st, v, path, val)

    def setpath(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        old = self.step(st, v, s)
        new = self.setpath(st, old, path[1:], val)
        if new is old:
            return v
        k = s[0]
        if k == "f":
            if v.op not in ("rec", "upd"):
                c = st.facts.canon(v)
                if c.op == "rec":
                    v = c
            return setfld(v, s[1], s[2], s[3], new)
        if k == "at":
            return self.seq_set(st, v, s[1], new)
        if k == "node":
            return self.arena_set(st, v, s[1], new)
        if k == "sub":
            a = self.seq_slice(st, v, num(0), s[1])
            b = self.seq_slice(st, v, s[2], length(v))
            return mkseq(segs(a) + segs(new) + segs(b))
        if k == "mapv":
            return self.map_set(st, v, s[1], new)
        raise Exception("setpath")

    # ------------------------------------------------------------ arenas
    def arena_parts(self, a):
        if a.op == "arena":
            return a.args[0], a.args[1]
        return a, ()

    def arena_get(self, st, a, key):
        if a.op == "ite":
            return mkite(a.args[0], self.arena_get(st, a.args[1], key), self.arena_get(st, a.args[2], key))
        base, layers = self.arena_parts(a)
        key = st.facts.canon(key)
        for i in range(len(layers) - 1, -1, -1):
            l = layers[i]
            if l.op == "w":
                if st.facts.canon(l.args[0]) is key:
                    return l.args[1]
            elif l.op == "fa":
                bv, lo, hi, guard, k, val = l.args
                j = match1(st.facts.canon(k), key, bv)
                if j is None:
                    j = match1(k, key, bv)
                if j is not None:
                    inr = [le(lo, j), lt(j, hi)] + [subst(g, {bv: j}) for g in guard]
                    vals = [st.facts.value(x) for x in inr]
                    if any(x is False for x in vals):
                        continue
                    v = subst(val, {bv: j})
                    rest = [x for x, y in zip(inr, vals) if y is None]
                    if not rest:
                        return v
                    below = self.arena_get(st, mk("arena", base, layers[:i]), key)
                    c = rest[0] if len(rest) == 1 else mk("and", tuple(rest))
                    return mkite(c, v, below)
        return mk("nd", base, key)

    def arena_set(self, st, a, key, val):
        base, layers = self.arena_parts(a)
        key = st.facts.canon(key)
        ls = list(layers)
        for i in range(len(ls) - 1, -1, -1):
            l = ls[i]
            if l.op == "w" and st.facts.canon(l.args[0]) is key:
                # keep it above any quantified layer
                if any(x.op == "fa" for x in ls[i + 1:]):
                    del ls[i]
                    ls.append(mk("w", key, val))
                else:
                    ls[i] = mk("w", key, val)
                return mk("arena", base, tuple(ls))
        ls.append(mk("w", key, val))
        return mk("arena", base, tuple(ls))

    # ------------------------------------------------------------ maps (HashMap)
    def map_get(self, st, m, key):
        return self.arena_get(st, m, key)

    def map_set(self, st, m, key, val):
        return self.arena_set(st, m, key, val)

    # ------------------------------------------------------------ sequences
    def _locate(self, st, gs, i):
        """segment holding index i: (segment number, offset start) or None"""
        pos = num(0)
        F = st.facts
        for n, g in enumerate(gs):
            w = seglen(g)
            end = add(pos, w)
            if i is pos and (numval(w) or 0) >= 1:
                return n, pos
            if n == len(gs) - 1:
                if len(gs) == 1 or F.implies(le(pos, i)):
                    return n, pos
                return None
            if F.implies(lt(i, end)):
                if n == 0 or F.implies(le(pos, i)):
                    return n, pos
                return None
            if not F.implies(le(end, i)):
                return None
            pos = end
        return None

    def seq_get(self, st, s, i):
        i = st.facts.canon(i)
        if s.op == "ite":
            return mkite(s.args[0], self.seq_get(st, s.args[1], i), self.seq_get(st, s.args[2], i))
        if s.op != "seq":
            c = st.facts.canon(s)
            if c.op == "seq":
                s = c
            else:
                return el(s, i)
        gs = s.args[0]
        p = self._locate(st, gs, i)
        if p is None:
            if len(gs) > 1 and getattr(self, "undecided", None) is not None and (s, i) not in self.undecided:
                self.undecided.append((s, i))
            return mk("el", s, i)
        n, pos = p
        g = gs[n]
        off = sub(i, pos)
        if g.op == "u":
            return g.args[0]
        if g.op == "sl":
            return el(g.args[0], add(g.args[1], off))
        if g.op == "gen":
            return subst(g.args[3], {g.args[0]: add(g.args[1], off)})
        return mk("el", s, i)

    def _split(self, st, s, i):
        """(left segments, right segments) at index i, or None"""
        i = st.facts.canon(i)
        gs = segs(s)
        pos = num(0)
        F = st.facts
        left = []
        for n, g in enumerate(gs):
            if i is pos or F.implies(eqi(i, pos)):
                return left, gs[n:]
            w = seglen(g)
            end = add(pos, w)
            last = n == len(gs) - 1
            if i is end or F.implies(eqi(i, end)):
                return left + [g], gs[n + 1:]
            if last or F.implies(le(i, end)):
                if not (n == 0 or F.implies(le(pos, i))):
                    return None
                if g.op == "u":
                    # i is pos or pos+1, not known which
                    return None
                off = sub(i, pos)
                if g.op == "sl":
                    b, a, e = g.args
                    m = add(a, off)
                    return left + [sl(b, a, m)], [sl(b, m, e)] + gs[n + 1:]
                if g.op == "gen":
                    k, a, e, t = g.args
                    m = add(a, off)
                    return left + [mk("gen", k, a, m, t)], [mk("gen", k, m, e, t)] + gs[n + 1:]
                return None
            if not F.implies(le(end, i)):
                return None
            left.append(g)
            pos = end
        if not gs:
            return [], []
        return None

    def located(self, st, s, points, item=False):
        """states in which the given positions of a list are known to lie in one piece of it"""
        if not self.casecuts:
            return [st]
        s = st.facts.canon(s)
        if s.op != "seq" or not 1 < len(s.args[0]) < 8:
            return [st]
        todo, done = [(st, tuple(points))], []
        while todo:
            x, ps = todo.pop()
            while ps:
                i = x.facts.canon(ps[0])
                if (self._locate(x, segs(s), i) if item else self._split(x, s, i)) is not None:
                    ps = ps[1:]
                    continue
                break
            if not ps:
                done.append(x)
                continue
            pos, branched = num(0), False
            for g in segs(s):
                pos = add(pos, seglen(g))
                c = lt(i, pos) if item else le(i, pos)
                if x.facts.value(c) is None and x.facts.implies(c) is not True:
                    y = x.copy()
                    if self.assume(y, c) and TM.fm_feasible(y.facts.system([num(0)] + list(y.facts.num))) is not False:
                        todo.append((y, ps))
                    z = x.copy()
                    if self.assume(z, c, False) and TM.fm_feasible(z.facts.system([num(0)] + list(z.facts.num))) is not False:
                        todo.append((z, ps))
                    branched = True
                    break
                if x.facts.implies(c):
                    break
            if not branched or len(todo) + len(done) > 24:
                return [st]
        return done

    def seq_slice(self, st, s, a, b):
        if numval(a) == 0 and b is length(s):
            return s
        x = self._split(st, s, b)
        if x is None:
            return mk("slice", s, a, b)
        y = self._split(st, mkseq(x[0]), a)
        if y is None:
            return mk("slice", s, a, b)
        return mkseq(y[1])

    def seq_set(self, st, s, i, val):
        gs = segs(s)
        p = self._locate(st, gs, st.facts.canon(i))
        if p is None:
            self.note("seq_set")
            return mk("app", "seqset", s, i, val)
        n, pos = p
        g = gs[n]
        off = sub(st.facts.canon(i), pos)
        if g.op == "u":
            new = [unit(val)]
        elif g.op == "sl":
            b, lo, hi = g.args
            m = add(lo, off)
            new = [sl(b, lo, m), unit(val), sl(b, add(m, num(1)), hi)]
        else:
            return mk("app", "seqset", s, i, val)
        return mkseq(gs[:n] + new + gs[n + 1:])

    def seq_insert(self, st, s, i, val):
        x = self._split(st, s, i)
        if x is None:
            self.note("seq_insert")
            return mk("app", "seqins", s, i, val)
        return mkseq(x[0] + [unit(val)] + x[1])

    def seq_remove(self, st, s, i):
        v = self.seq_get(st, s, i)
        x = self._split(st, s, i)
        y = self._split(st, s, add(st.facts.canon(i), num(1)))
        if x is None or y is None:
            self.note("seq_remove")
            return v, mk("app", "seqrem", s, i)
        return v, mkseq(x[0] + y[1])

    # ------------------------------------------------------------ places and operands
    def place(self, fr, st, p):
        root = (LOCALROOT, fr.fid, p[0])
        path = []
        var = None
        for e in p[1]:
            if e == "*":
                v = self.read(st, root, path)
                root, path = self.target(st, v)
                path = list(path)
                var = None
            elif e[0] == "f":
                path.append(("f", var, e[1], e[2]))
                var = None
            elif e[0] == "d":
                var = e[2]
            elif e[0] == "i":
                i = self.read(st, (LOCALROOT, fr.fid, e[1]), ())
                path.append(("at", i))
            elif e[0] == "ci":
                if e[2]:
                    v = self.read(st, root, path)
                    path.append(("at", sub(length(v), num(e[1]))))
                else:
                    path.append(("at", num(e[1])))
            elif e[0] == "ss":
                v = self.read(st, root, path)
                hi = sub(length(v), num(e[2])) if e[3] else num(e[2])
                path.append(("sub", num(e[1]), hi))
            else:
                raise Exception("place elem %r" % (e,))
        return root, tuple(self._flat(st, path))

    def _flat(self, st, path):
        """compose slices of slices"""
        out = []
        for s in path:
            if out and out[-1][0] == "sub" and s[0] == "at":
                lo = out[-1][1]
                out[-1] = ("at", add(lo, s[1]))
            elif out and out[-1][0] == "sub" and s[0] == "sub":
                lo = out[-1][1]
                out[-1] = ("sub", add(lo, s[1]), add(lo, s[2]))
            else:
                out.append(s)
        return out

    def target(self, st, v):
        """location a reference value points to"""
        if v.op != "ref":
            v = st.facts.canon(v)
        if v.op == "ref":
            return v.args
        if v.op == "rec" and v.args[0] == "Box":
            return v.args[2][0].args
        return ("O", v), ()

    def deref(self, st, v):
        r, p = self.target(st, v)
        return self.read(st, r, p)

    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            r, p = self.place(fr, st, o[1])
            return self.read(st, r, p)
        if o[0] == "k":
            return self.const(o[1])
        return self.note("operand")

    def const(self, k):
        if k.get("fn"):
            f = k["fn"]
            return mk("fn", f.get("rid") or f["id"], f["path"])
        if k.get("closure"):
            return mk("rec", "closure:" + k["closure"], None, ())
        if "v" in k and k["v"] is not None:
            if k["ty"] == "bool":
                return boolean(k["v"] != 0)
            return num(k["v"])
        if k.get("ty") == "()":
            return UNIT
        s = k.get("s") or ""
        m = re.match(r"^(?:core::option::|std::option::)?Option::<.*>::None$", s)
        if m:
            return NONE
        if k.get("prom"):
            v = self.promoted(k["prom"])
            if v is not None:
                return v
        if k.get("promoted"):
            return self.note("promoted constant")
        if k.get("item"):
            return mk("const", k["item"], k["ty"])
        return mk("const", s, k.get("ty"))

    def promoted(self, steps):
        """a constant that is built in steps; None when a step is not understood"""
        env = {}

        def value(o):
            return env[o[1][0]] if o[0] in ("c", "m") else self.const(o[1])
        for l, r in steps:
            if r[0] == "use":
                v = value(r[1])
            elif r[0] == "ref":
                v = mkref(("K", env[r[2][0]]), ())
            else:
                v = self.aggregate(r[1], tuple(value(o) for o in r[2]))
            if v.hard:
                return None
            env[l] = v
        return env[0]

    def aggregate(self, info, fs):
        if info.get("tuple"):
            return mk("rec", "tuple", None, fs)
        if info.get("adt"):
            if not info["enum"] and len(fs) > 1:
                # a struct rebuilt from all its own parts
                b = fs[0].args[0] if fs[0].op == "fld" else None
                from .judge import FIELDS
                names = FIELDS.get(info["adt"])
                if b is not None and names and len(names) == len(fs) and all(
                        f.op == "fld" and f.args[0] is b and f.args[1] is None and f.args[2] == i and f.args[3] == names[i]
                        for i, f in enumerate(fs)):
                    return b
            return mk("rec", info["adt"], info["variant"] if info["enum"] else None, fs)
        if info.get("closure"):
            return mk("rec", "closure:" + info["closure"], None, fs)
        if info.get("array") is not None:
            return mkseq([unit(f) for f in fs])
        return self.note("agg")

    # ------------------------------------------------------------ statements
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "reborrow"):
            root, path = self.place(fr, st, r[2])
            return mkref(root, path)
        if k == "rawptr":
            root, path = self.place(fr, st, r[1])
            return mkref(root, path)
        if k == "bin":
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if r[3] == "bool":
                    return neg(a)
                return unk("bitnot")
            if r[1] == "Neg":
                return scale(a, -1)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, a))
            return self.note("un " + r[1])
        if k == "cast":
            a = self.operand(fr, st, r[2])
            if r[1].startswith("IntToInt") or r[1].startswith("PointerCoercion") or r[1].startswith("PtrToPtr"):
                if r[4] == "bool":
                    return mkite(a, num(1), num(0)) if a.op != "bool" else num(1 if a is TRUE else 0)
                return a
            if r[1].startswith("Transmute") or r[1].startswith("BoxDeref"):
                return a
            return mk("app", "cast:" + r[1] + ":" + r[3], a)
        if k == "agg":
            return self.aggregate(r[1], tuple(self.operand(fr, st, o) for o in r[2]))
        if k == "discr":
            root, path = self.place(fr, st, r[1])
            v = self.read(st, root, path)
            vs = tuple((x[1], x[2]) for x in r[3])
            if not vs:
                return self.note("discr")
            return self.discr(st, v, vs)
        if k == "repeat":
            return mk("app", "repeat", self.operand(fr, st, r[1]), str(r[2]))
        return self.note("rvalue " + k)

    def discr(self, st, v, vs):
        if v.op == "ite":
            return mkite(v.args[0], self.discr(st, v.args[1], vs), self.discr(st, v.args[2], vs))
        n = st.facts.variant(v)
        if n is not None:
            for x, d in vs:
                if x == n:
                    return num(d)
        c = st.facts.canon(v)
        if c.op == "ite":
            return self.discr(st, c, vs)
        return mk("disc", v, vs)

    INTS = ("usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128")

    def binop(self, st, op, a, b, ty):
        isint = ty in self.INTS or ty == "char"
        if op in ("Add", "AddUnchecked"):
            return add(a, b) if isint else mk("app", "fadd", a, b)
        if op in ("Sub", "SubUnchecked"):
            if isint and self.panic_states is not None and ty.startswith("u") and not st.facts.implies(le(b, a)):
                s2 = st.copy()
                if self.assume(s2, le(b, a), False):
                    self.panic_states.append(("subtraction wraps", self.cur, s2))
            return sub(a, b) if isint else mk("app", "fsub", a, b)
        if op == "AddWithOverflow":
            return tup(add(a, b), FALSE)
        if op == "SubWithOverflow":
            return tup(sub(a, b), FALSE)
        if op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            n, m = numval(a), numval(b)
            if n is not None:
                r = scale(b, n)
            elif m is not None:
                r = scale(a, m)
            else:
                r = mk("mul", *sorted((a, b), key=lambda x: x.id))
            return tup(r, FALSE) if op == "MulWithOverflow" else r
        if op == "Div" and isint:
            m = numval(b)
            n = numval(a)
            if m and n is not None:
                return num(n // m)
            if m:
                return mk("div", a, m)
            return mk("app", "divt", a, b)
        if op == "Rem" and isint:
            m = numval(b)
            n = numval(a)
            if m and n is not None:
                return num(n % m)
            if m:
                return sub(a, scale(mk("div", a, m), m))
            return mk("app", "rem", a, b)
        if op in ("Shr", "ShrUnchecked", "Shl", "ShlUnchecked") and isint and ty.startswith("u"):
            k = numval(b)
            n = numval(a)
            if k is not None and 0 <= k < 8:
                if op.startswith("Shl"):
                    return scale(a, 1 << k)
                return a if k == 0 else num(n >> k) if n is not None else mk("div", a, 1 << k)
        if op == "BitAnd" and isint and ty.startswith("u"):
            for x, y in ((a, b), (b, a)):
                m = numval(x)
                if m is not None and m > 0 and (m & (m + 1)) == 0:
                    return sub(y, scale(mk("div", y, m + 1), m + 1))
        if op in ("Eq", "Ne"):
            if a.op == "disc" or b.op == "disc":
                r = self.disc_eq(st, a, b)
            elif isint:
                r = eqi(a, b)
            else:
                r = eq(st.facts.canon(a), st.facts.canon(b))
            return r if op == "Eq" else neg(r)
        if op == "Lt":
            return lt(a, b) if isint else mk("app", "flt", a, b)
        if op == "Le":
            return le(a, b) if isint else mk("app", "fle", a, b)
        if op == "Gt":
            return lt(b, a) if isint else mk("app", "flt", b, a)
        if op == "Ge":
            return le(b, a) if isint else mk("app", "fle", b, a)
        if op == "Cmp":
            return cmp_int(a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and ty == "bool":
            if op == "BitAnd":
                return mkite(a, b, FALSE)
            if op == "BitOr":
                return mkite(a, TRUE, b)
            return mkite(a, neg(b), b)
        return unk("bin" + op)

    def disc_eq(self, st, a, b):
        if a.op != "disc":
            a, b = b, a
        if a.op == "disc":
            n = numval(b)
            if n is not None:
                for x, d in a.args[1]:
                    if d == n:
                        return isvar(a.args[0], x)
                return FALSE
            if b.op == "disc":
                if a.args[0] is b.args[0]:
                    return TRUE
                return mk("eq", *sorted((a, b), key=lambda x: x.id))
        return eq(a, b)

    # ------------------------------------------------------------ branching
    def assume(self, st, b, pol=True):
        """facts of st extended; False if infeasible"""
        if b.op == "ite":
            # bool ite
            c, x, y = b.args
            vc = st.facts.value(c)
            if vc is None:
                vx = st.facts.value(x)
                vy = st.facts.value(y)
                if vx is (not pol):
                    return self.assume(st, c, False) and self.assume(st, y, pol)
                if vy is (not pol):
                    return self.assume(st, c, True) and self.assume(st, x, pol)
                return st.facts.assume(b, pol)
            return self.assume(st, x if vc else y, pol)
        ok_ = st.facts.assume(b, pol)
        if ok_:
            ok_ = self.consequences(st, b, pol)
        return ok_

    def consequences(self, st, b, pol):
        while b.op == "not":
            b = b.args[0]
            pol = not pol
        if b.op == "isvar" and b.args[0].op == "app" and b.args[0].args[0] == "cmp":
            x, y = b.args[0].args[1:]
            v = b.args[1]
            if pol:
                f = {"Less": lt(x, y), "Equal": eqi(x, y), "Greater": lt(y, x)}[v]
            else:
                f = {"Less": le(y, x), "Equal": neg(eqi(x, y)), "Greater": le(x, y)}[v]
            return st.facts.assume(f)
        for h in self.assume_hooks:
            if h(self, st, b, pol) is False:
                return False
        return True

    def split_bool(self, st, b):
        """[(bool, state)]"""
        if b.op == "ite":
            out = []
            for v, s in self.split_bool(st, b.args[0]):
                out += self.split_bool(s, b.args[1] if v else b.args[2])
            return out
        v = st.facts.value(b)
        if v is not None:
            return [(v, st)]
        out = []
        for pol in (True, False):
            s = st.copy()
            if self.assume(s, b, pol):
                out.append((pol, s))
        return out

    def split_variant(self, st, v, names):
        """[(variant name, value, state)]"""
        if v.op == "ite":
            out = []
            for b, s in self.split_bool(st, v.args[0]):
                out += self.split_variant(s, v.args[1] if b else v.args[2], names)
            return out
        n = st.facts.variant(v)
        if n is not None:
            return [(n, v, st)]
        c = st.facts.canon(v)
        if c.op == "ite":
            return self.split_variant(st, c, names)
        out = []
        for n in names:
            s = st.copy()
            if self.assume(s, isvar(v, n)):
                out.append((n, v, s))
        return out

    def switch(self, fr, st, t):
        d = self.operand(fr, st, t["d"])
        return self.switch_on(st, d, t)

    def switch_on(self, st, d, t):
        if d.op == "ite":
            out = []
            for v, s in self.split_bool(st, d.args[0]):
                out += self.switch_on(s, d.args[1] if v else d.args[2], t)
            return out
        out = []
        if t["dty"] == "bool":
            ts = dict((x, y) for x, y in t["ts"])
            for v, s in self.split_bool(st, d):
                out.append((ts.get(1 if v else 0, t["o"]), s))
            return out
        n = numval(st.facts.canon(d))
        if n is not None:
            for x, y in t["ts"]:
                if x == n or (x > 2**63 and x - 2**64 == n) or (x > 127 and x - 256 == n) or (x > 2**127 and x - 2**128 == n):
                    return [(y, st)]
            return [(t["o"], st)]
        if d.op == "disc":
            v, vs = d.args
            seen = []
            for x, y in t["ts"]:
                name = None
                for nm, dv in vs:
                    if dv == x or (dv < 0 and (dv % 256 == x or dv % 2**64 == x or dv % 2**128 == x)) or (x < 0 and dv == x % 2**64):
                        name = nm
                if name is None:
                    continue
                seen.append(name)
                s = st.copy()
                if self.assume(s, isvar(v, name)):
                    out.append((y, s))
            rest = [nm for nm, _ in vs if nm not in seen]
            if rest:
                s = st.copy()
                good = True
                if len(rest) == 1:
                    good = self.assume(s, isvar(v, rest[0]))
                else:
                    for nm in seen:
                        good = good and self.assume(s, isvar(v, nm), False)
                if good:
                    out.append((t["o"], s))
            return out
        others = st.copy()
        good = True
        for x, y in t["ts"]:
            c = eqi(d, num(x))
            s = st.copy()
            if self.assume(s, c):
                out.append((y, s))
            good = good and self.assume(others, c, False)
        if good:
            out.append((t["o"], others))
        return out

    # ------------------------------------------------------------ running bodies
    def run(self, body, args, st, caller=0, site=None):
        """abstract outcomes of a call: [(return value, state)]"""
        if not self.stack and self.prog.reshaped(body):
            raise Limit("%s has another signature" % body.path)
        fr = Frame(body, self.fid(caller, site, body.id))
        for i, a in enumerate(args):
            st.store[(LOCALROOT, fr.fid, i + 1)] = a
        self.stack.append(body.id)
        self.calledby.setdefault(fr.fid, (caller, site, body))
        try:
            backs, exits, rets = self.region(fr, None, 0, [st], None)
        finally:
            self.stack.pop()
        out = []
        for v, s in rets:
            for r in [r for r in s.store if r[0] == LOCALROOT and r[1] == fr.fid]:
                del s.store[r]
            out.append((v, s))
        return self.merge_rets(out)

    def merge_rets(self, out):
        groups = {}
        for v, s in out:
            k = (v, frozenset(s.store.items()), s.log, s.facts.key() if self.nomerge else None)
            if k in groups:
                groups[k][1].facts = groups[k][1].facts.meet(s.facts)
            else:
                groups[k] = (v, s)
        return list(groups.values())

    def merge(self, fr, b, states):
        if len(states) == 1:
            return states
        live = fr.body.live[b]
        addr = fr.body.addr
        groups = {}
        for s in states:
            for r in [r for r in s.store if r[0] == LOCALROOT and r[1] == fr.fid and isinstance(r[2], int) and r[2] >= 0 and r[2] not in live and r[2] not in addr]:
                del s.store[r]
            k = (frozenset(s.store.items()), s.log, s.facts.key() if self.nomerge else None)
            if k in groups:
                groups[k].facts = groups[k].facts.meet(s.facts)
            else:
                groups[k] = s
        return list(groups.values())

    def region(self, fr, blocks, entry, states, head):
        body = fr.body
        pend = {entry: list(states)}
        backs, exits, rets = [], [], []
        first = True
        while pend:
            b = min(pend, key=lambda x: body.rpo[x])
            sts = self.merge(fr, b, pend.pop(b))
            is_head = b in body.loops and not (first and b == head)
            first = False
            self.visited.add((body.id, b))
            for st in sts:
                self.steps += 1
                if self.steps > self.max_states:
                    raise Limit("state limit in %s" % body.path)
                if is_head:
                    ex, rt = self.loop(fr, b, st)
                    rets += rt
                    nxt = ex
                else:
                    nxt, rt = self.block(fr, b, st)
                    rets += rt
                for nb, ns in nxt:
                    if nb == head and head is not None:
                        backs.append(ns)
                    elif blocks is not None and nb not in blocks:
                        exits.append((nb, ns))
                    else:
                        pend.setdefault(nb, []).append(ns)
        return backs, exits, rets

    def block(self, fr, b, st):
        body = fr.body
        bl = body.blocks[b]
        self.cur = Site(body.path, b, bl["s"][0][3] if bl["s"] and len(bl["s"][0]) > 3 else [body.file, 0], fr.fid)
        for s in bl["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2])
                root, path = self.place(fr, st, s[1])
                self.write_ev(fr, st, root, path, v, s[3])
            elif s[0] == "setd":
                self.note("setd")
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)], []
        if k == "switch":
            return self.switch(fr, st, t), []
        if k == "return":
            return [], [(self.rootval(st, (LOCALROOT, fr.fid, 0)) if (LOCALROOT, fr.fid, 0) in st.store else UNIT, st)]
        if k == "drop":
            return self.do_drop(fr, st, t), []
        if k == "assert":
            c = self.operand(fr, st, t["c"])
            out = []
            if self.panic_states is not None:
                s2 = st.copy()
                if self.assume(s2, c, not t["e"]):
                    self.panic_states.append(("assert " + str(t["m"]), Site(fr.body.path, b, t.get("span") or ["", 0], fr.fid), s2))
            if self.assume(st, c, t["e"]):
                out.append((t["t"], st))
            return out, []
        if k == "call":
            return self.call(fr, b, st, t), []
        return [], []

    def write_ev(self, fr, st, root, path, v, span):
        self.write(st, root, path, v)

    def do_drop(self, fr, st, t):
        return [(t["t"], st)]

    # ------------------------------------------------------------ calls
    def call(self, fr, b, st, t):
        args = [self.operand(fr, st, a) for a in t["args"]]
        f = t["f"]
        site = Site(fr.body.path, b, t["span"], fr.fid)
        if f[0] == "k" and f[1].get("fn"):
            fn = f[1]["fn"]
            outs = self.invoke(fn, args, st, site, t)
        else:
            fv = self.operand(fr, st, f)
            outs = self.call_value(fv, args, st, site, t)
        res = []
        if t["t"] is None:
            if self.panic_states is not None:
                for v, s in outs if outs else []:
                    pass
            return []
        for v, s in outs:
            root, path = self.place(fr, s, t["dst"])
            self.write(s, root, path, v)
            res.append((t["t"], s))
        return res

    def contract(self, body):
        c = self.contracts.get(body.np) or self.contracts.get(body.path)
        if c is not None and self.prog.reshaped(body):
            raise Limit("%s has another signature" % body.path)
        return c

    def invoke(self, fn, args, st, site, t):
        path = fn["path"]
        rpath = fn.get("rpath") or path
        rid = fn.get("rid") or fn["id"]
        nk = norm(path)
        # contracts on local functions
        body = self.prog.bodies.get(rid)
        if body is not None:
            c = self.contract(body)
            if c is not None:
                return c(self, args, st, site, t, body)
            if rid in self.prog.recursive and self.stack.count(rid) > getattr(self, "recur", 0):
                return self.unknown_call(rpath, args, st, site, t, "recursive")
            if fn.get("trait") and not fn.get("rid"):
                # a trait method of an unknown implementation: never its default body when modelled
                m = self.model_for(fn, nk, nk, args, st)
                if m is not None:
                    r = m(self, args, st, site, t, fn)
                    if r is not None:
                        return r
            if body.d["kind"] != "Closure":
                return self.run(body, args, st, site.fid, site.block)
        m = self.model_for(fn, nk, norm(rpath) if not rpath.startswith("<") else rpath, args, st)
        if m is not None:
            r = m(self, args, st, site, t, fn)
            if r is not None:
                return r
        eb = self.prog.extbody(rid)
        if eb is not None:
            return self.run(eb, args, st, site.fid, site.block)
        return self.unknown_call(rpath, args, st, site, t, "unmodelled")

    def model_for(self, fn, nk, rk, args, st):
        from .models import MODELS
        return MODELS.get(nk) or MODELS.get(rk)

    def unknown_call(self, path, args, st, site, t, why):
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        for a, ty in zip(args, t["atys"]):
            if ty.get("mut") or (a.op == "ref" and ty.get("refs") and "mut" in ty.get("s", "")):
                root, p = self.target(st, a)
                self.write(st, root, p, unk("havoc " + path))
        if t["t"] is None:
            return []
        return [(unk(path), st)]

    def call_value(self, fv, args, st, site, t):
        """call a closure / fn value with already-spread args"""
        if fv.op == "ref":
            inner = self.deref(st, fv)
            if inner.op == "rec" and str(inner.args[0]).startswith("closure:"):
                return self.call_closure(inner, fv, args, st, site, t)
            return self.call_value(inner, args, st, site, t)
        if fv.op == "rec" and str(fv.args[0]).startswith("closure:"):
            return self.call_closure(fv, None, args, st, site, t)
        if fv.op == "fn":
            body = self.prog.bodies.get(fv.args[0])
            if body is not None:
                c = self.contract(body)
                if c:
                    return c(self, args, st, site, t, body)
                if fv.args[0] not in self.stack:
                    return self.run(body, args, st, site.fid, (site.block, "fnval"))
            from .models import MODELS
            m = MODELS.get(norm(fv.args[1]))
            if m:
                r = m(self, args, st, site, t, {"path": fv.args[1], "targs": []})
                if r is not None:
                    return r
            eb = self.prog.extbody(fv.args[0])
            if eb is not None:
                return self.run(eb, args, st, site.fid, (site.block, "fnval"))
            return self.ctor(fv, args, st, site, t)
        return self.opaque_call(fv, args, st, site, t)

    def ctor(self, fv, args, st, site, t):
        # tuple-variant constructors used as functions
        p = norm(fv.args[1])
        parts = p.split("::")
        if len(parts) >= 2 and parts[-1] in ("Some", "Ok", "Err"):
            return [(rec(OPT if parts[-1] == "Some" else RES, parts[-1], *args), st)]
        for ad in self.prog.d["adts"]:
            for v in ad["variants"]:
                if ad["enum"] and p == ad["path"] + "::" + v["name"]:
                    return [(mk("rec", ad["path"], v["name"], tuple(args)), st)]
                if not ad["enum"] and p == ad["path"]:
                    return [(mk("rec", ad["path"], None, tuple(args)), st)]
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        return [(unk("ctor " + p), st)]

    def call_closure(self, cv, ref, args, st, site, t):
        cid = cv.args[0][8:]
        body = self.prog.bodies.get(cid)
        if body is None:
            eb = self.prog.extbody(cid)
            if eb is None:
                return [(unk("closure"), st)]
            body = eb
        by_ref = body.locals[1]["ty"]["refs"] > 0
        tmp = None
        if by_ref:
            if ref is None:
                tmp = (LOCALROOT, self.fid(site.fid, (site.block, "clo"), cid), -1)
                st.store[tmp] = cv
                ref = mkref(tmp, ())
            a0 = ref
        else:
            a0 = cv
        if cid in self.prog.recursive:
            return [(unk("recursive closure"), st)]
        outs = self.run(body, [a0] + list(args), st, site.fid, (site.block, "clo"))
        if tmp is not None:
            for _, s in outs:
                s.store.pop(tmp, None)
        return outs

    def opaque_call(self, fv, args, st, site, t):
        """a caller-supplied function"""
        olds = []
        for a in args:
            olds.append(self.deref(st, a) if a.op == "ref" else a)
        ret = mk("app", "ret", fv, *olds)
        st.ev("usercall", fv, tuple(olds), site)
        for i, a in enumerate(args):
            if a.op == "ref" and self.is_mut_arg(t, i):
                root, p = self.target(st, a)
                self.write(st, root, p, mk("app", "after", fv, *olds))
        return [(ret, st)]

    def is_mut_arg(self, t, i):
        # args of FnMut::call_mut come in a tuple type; inspect its text
        ty = t["atys"][-1].get("s", "")
        if ty.startswith("(") and ty.endswith(")"):
            part, depth, cur = [], 0, ""
            for c in ty[1:-1]:
                depth += (c in "(<[") - (c in ")>]")
                if c == "," and depth == 0:
                    part.append(cur)
                    cur = ""
                else:
                    cur += c
            part.append(cur)
            if i < len(part):
                ty = part[i]
        return "&mut" in ty or "&'_ mut" in ty or re.search(r"&'?\w* ?mut", ty) is not None

    # ------------------------------------------------------------ helpers of the library models
    def vec_cap(self, ty):
        m = re.search(r"MaybeUninit<.*>; (\d+)\]", ty.get("s", ""))
        return int(m.group(1)) if m else None

    def capacity(self, st, site, t, fn, s, n, ty):
        cap = self.vec_cap(ty)
        if cap is None:
            return
        need = add(length(s), n)
        self.cap_events.append((site, cap, need, st.facts.implies(le(need, num(cap))), st.copy()))

    def alive(self, st, v):
        """is the heap cell `v` of an initial arena occupied"""
        base = v.args[0]
        if base.op == "app" and base.args[0] in ("emptyarena", "emptymap"):
            return FALSE
        for r in self.alive_rules:
            x = r(self, st, v)
            if x is not None:
                return x
        return mk("app", "alive", v)

    def fresh(self, st, tag):
        root = ("T", "cnt", tag)
        c = st.store.get(root, num(0))
        st.store[root] = add(c, num(1))
        return mk("fresh", tag, c)

    def arena_kind(self, path):
        for s in reversed(path):
            if s[0] == "f":
                return "leaf" if s[3] == "leaf_nodes" else "internal" if s[3] == "in_nodes" else str(s[3])
        return "?"

    def peel_sub(self, p):
        if p and p[-1][0] == "sub":
            return p[:-1], p[-1][1], p[-1][2]
        return None

    def must(self, st, conds, site, fn):
        """the call panics unless the conditions hold"""
        for c in conds:
            if self.panic_states is not None and not st.facts.implies(c):
                s2 = st.copy()
                if self.assume(s2, c, False):
                    what = fn["path"] if isinstance(fn, dict) else fn
                    self.panic_states.append(("out of bounds: " + what, site, s2))
            if not self.assume(st, c):
                return False
        return True

    def implied(self, st, b):
        return st.facts.value(b)

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st):
        from .loops import run_loop
        return run_loop(self, fr, h, st)


class Frame:
    __slots__ = ("body", "fid")

    def __init__(self, body, fid):
        self.body = body
        self.fid = fid


class Site:
    __slots__ = ("path", "block", "span", "fid")

    def __init__(self, path, block, span, fid):
        self.path = path
        self.block = block
        self.span = span
        self.fid = fid

    def __repr__(self):
        return "%s bb%s (%s:%s)" % (self.path, self.block, self.span[0], self.span[1])

    def __hash__(self):
        return hash((self.path, self.block, self.fid))

    def __eq__(self, o):
        return isinstance(o, Site) and (self.path, self.block, self.fid) == (o.path, o.block, o.fid)


def isvar(v, name):
    if v.op == "rec":
        return boolean(v.args[1] == name)
    v = TM.valias(v)
    if isinstance(v, str):
        return boolean(v == name)
    return mk("isvar", v, name)


TM.NORMALISERS["isvar"] = isvar


def cmp_int(a, b):
    n = numval(sub(a, b))
    if n is not None:
        return rec(ORD, "Less" if n < 0 else "Equal" if n == 0 else "Greater")
    return mk("app", "cmp", a, b)


def match1(pat, t, k):
    """binding of k that makes pat equal to t, or None"""
    b = {}
    if _match1(pat, t, k, b):
        j = b.get(k)
        if j is not None and subst(pat, {k: j}) is t:
            return j
    return None


def _match1(p, t, k, b):
    if p is t and not mentions(p, k):
        return True
    if p is k:
        if k in b:
            return b[k] is t
        b[k] = t
        return True
    if p.op == "lin" or t.op == "lin":
        c, d = TM._lin(p)
        if d.get(k) in (1, -1):
            rest = mklin(c, {x: v for x, v in d.items() if x is not k})
            if mentions(rest, k):
                return False
            j = sub(t, rest)
            if d[k] == -1:
                j = scale(j, -1)
            if k in b:
                return b[k] is j
            b[k] = j
            return True
        return p is t
    if p.op != t.op or len(p.args) != len(t.args):
        return False
    return all(_match1a(x, y, k, b) for x, y in zip(p.args, t.args))


def _match1a(x, y, k, b):
    if isinstance(x, T) and isinstance(y, T):
        return _match1(x, y, k, b)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_match1a(p, q, k, b) for p, q in zip(x, y))
    return x == y


TM._match1 = _match1
