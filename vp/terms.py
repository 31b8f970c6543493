"""Hash-consed value terms of the abstract interpreter, their normal forms, and path facts.

Values are numbered: two expressions that always denote the same value get the same (interned)
term. Integers are kept in linear normal form, vectors as concatenations of slices and units,
enum/struct values as records, heap cells as access paths.
"""


class T:
    __slots__ = ("op", "args", "id", "unk", "hard", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        # not the address: every run looks at everything in the same order
        return self.id


_tab = {}


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.id = len(_tab)
        t.op = op
        t.args = args
        # unk: a value the analysis does not know; hard: one that is not even a loop unknown
        t.hard = op == "unk" or any(_hard(a) for a in args)
        # an element read at a place of a concatenation nobody decided on stands for several
        t.unk = op in ("phi", "heapphi") or t.hard or op == "el" and args[0].op == "seq" and len(args[0].args[0]) > 1 or any(_unk(a) for a in args)
        _tab[key] = t
    return t


def _unk(a):
    if isinstance(a, T):
        return a.unk
    if isinstance(a, tuple):
        return any(_unk(x) for x in a)
    return False


def _hard(a):
    if isinstance(a, T):
        return a.hard
    if isinstance(a, tuple):
        return any(_hard(x) for x in a)
    return False


def sym(name):
    return mk("sym", name)


_unkc = [0]


def unk(why=""):
    return mk("unk", why)


# ---------------------------------------------------------------- integers
def num(n):
    return mk("lin", n, ())


ZERO = None


def is_num(t):
    return t.op == "lin" and not t.args[1]


def numval(t):
    return t.args[0] if is_num(t) else None


def _lin(t):
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mklin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, s=1):
    ca, da = _lin(a)
    cb, db = _lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mklin(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = _lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


# ---------------------------------------------------------------- booleans
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolean(b):
    return TRUE if b else FALSE


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        return ge0(sub(scale(b.args[0], -1), num(1)))
    return mk("not", b)


def ge0(e):
    n = numval(e)
    if n is not None:
        return boolean(n >= 0)
    return mk("ge0", e)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), num(1)))


def eqi(a, b):
    d = sub(a, b)
    n = numval(d)
    if n is not None:
        return boolean(n == 0)
    # sign normal form
    c, m = _lin(d)
    first = min(m, key=lambda x: x.id)
    if m[first] < 0:
        d = scale(d, -1)
    return mk("eq0", d)


def parts_equal(a, b):
    """what has to be equal for two structures to be equal"""
    if a.args[0] != b.args[0] or a.args[1] != b.args[1] or len(a.args[2]) != len(b.args[2]):
        return None
    return [eq(x, y) for x, y in zip(a.args[2], b.args[2])]


def eq(a, b):
    if a is b:
        return TRUE
    if (a.op == "lin") or (b.op == "lin"):
        return eqi(a, b)
    if a.op == "rec" and b.op == "rec" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        if len(a.args[2]) == len(b.args[2]):
            parts = [eq(x, y) for x, y in zip(a.args[2], b.args[2])]
            parts = [p for p in parts if p is not TRUE]
            if not parts:
                return TRUE
            if any(p is FALSE for p in parts):
                return FALSE
            if len(parts) == 1:
                return parts[0]
    if a.op == "bool" or b.op == "bool":
        if a.op == "bool" and b.op == "bool":
            return boolean(a is b)
        x, y = (b, a) if a.op == "bool" else (a, b)
        return x if y is TRUE else neg(x)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


# ---------------------------------------------------------------- records
def rec(ty, variant, *fields):
    return mk("rec", ty, variant, tuple(fields))


def tup(*fields):
    return rec("tuple", None, *fields)


UNIT = tup()
OPT = "std::option::Option"
RES = "std::result::Result"
ORD = "std::cmp::Ordering"


def some(x):
    return rec(OPT, "Some", x)


NONE = rec(OPT, "None")


def ok(x):
    return rec(RES, "Ok", x)


def err(x):
    return rec(RES, "Err", x)


# types whose variants are projected alike (the raw index inside)
MERGED = {"ArenaIndex"}

# rewriting hooks for projections out of initial heap cells (tree axioms); set by the tree model
FLD_RULES = []


def fld(base, variant, idx, name):
    """field `name`/`idx` of `base`"""
    if base.op == "rec":
        if idx < len(base.args[2]):
            return base.args[2][idx]
        return unk("field")
    if base.op == "upd":
        for k, v in base.args[1]:
            if k == (variant, idx, name):
                return v
        return fld(base.args[0], variant, idx, name)
    if base.op == "ite":
        c, a, b = base.args
        return mkite(c, fld(a, variant, idx, name), fld(b, variant, idx, name))
    for r in FLD_RULES:
        x = r(base, variant, idx, name)
        if x is not None:
            return x
    return mk("fld", base, variant, idx, name)


def _same_column(s, variant, idx, name):
    """the sequence and shift that `s` agrees with in one field, when its items are consecutive items of another with other fields changed"""
    base = None
    nxt = first = None
    for g in s.args[0]:
        if g.op == "sl":
            b, lo, hi = g.args
        elif g.op == "u" and g.args[0].op == "upd" and g.args[0].args[0].op == "el" and all(k != (variant, idx, name) for k, _ in g.args[0].args[1]):
            b, lo = g.args[0].args[0].args
            hi = add(lo, num(1))
        else:
            return None
        if base is None:
            base, first = b, lo
        elif b is not base or nxt is not lo:
            return None
        nxt = hi
    return base, first


def _column(b, variant, idx, name):
    if b.op == "el" and b.args[0].op == "seq" and len(b.args[0].args[0]) > 1:
        r = _same_column(b.args[0], variant, idx, name)
        if r is not None:
            return fld(el(r[0], add(r[1], b.args[1])), variant, idx, name)


FLD_RULES.append(_column)


def mkite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return mk("ite", c, a, b)


def setfld(base, variant, idx, name, val):
    if base.op == "rec" and idx < len(base.args[2]):
        f = list(base.args[2])
        f[idx] = val
        return mk("rec", base.args[0], base.args[1], tuple(f))
    key = (variant, idx, name)
    if base.op == "upd":
        d = dict(base.args[1])
        d[key] = val
        b0 = base.args[0]
    else:
        d = {key: val}
        b0 = base
    # dropping writes that restore the old value
    d = {k: v for k, v in d.items() if fld(b0, *k) is not v}
    if not d:
        return b0
    return mk("upd", b0, tuple(sorted(d.items(), key=lambda x: str(x[0]))))


# ---------------------------------------------------------------- sequences
def length(s):
    """length of a vector value"""
    if s.op == "seq":
        n = num(0)
        for g in s.args[0]:
            n = add(n, seglen(g))
        return n
    if s.op == "ite":
        return mkite(s.args[0], length(s.args[1]), length(s.args[2]))
    if s.op == "slice":
        return sub(s.args[2], s.args[1])
    if s.op == "app":
        if s.args[0] == "repeat" and str(s.args[2]).isdigit():
            return num(int(s.args[2]))
        if s.args[0] in ("seqset", "reverse"):
            return length(s.args[1])
    for r in LEN_RULES:
        x = r(s)
        if x is not None:
            return x
    return mk("len", s)


LEN_RULES = []


def seglen(g):
    if g.op == "sl":
        return sub(g.args[2], g.args[1])
    if g.op == "u":
        return num(1)
    if g.op == "gen":  # generated by a loop: gen(k, lo, hi, term)
        return sub(g.args[2], g.args[1])
    return mk("len", g)


EL_RULES = []


def el(s, i):
    for r in EL_RULES:
        x = r(s, i)
        if x is not None:
            return x
    if s.op in ("sl", "slice"):
        return seq_index_plain(s.args[0], add(s.args[1], i))
    if s.op == "gen":
        return subst(s.args[3], {s.args[0]: add(s.args[1], i)})
    if s.op == "seq":
        if len(s.args[0]) == 1 and s.args[0][0].op in ("gen", "sl"):
            return el(s.args[0][0], i)
        j = numval(i)
        for g in s.args[0] if j is not None and j >= 0 else ():
            n = numval(seglen(g))
            if n is None:
                break
            if j < n:
                return g.args[0] if g.op == "u" else el(g, num(j))
            j -= n
    return mk("el", s, i)


def sl(s, a, b):
    return mk("sl", s, a, b)


def unit(x):
    if x.op == "el":
        return sl(x.args[0], x.args[1], add(x.args[1], num(1)))
    return mk("u", x)


def segs(s):
    if s.op == "seq":
        return list(s.args[0])
    return [sl(s, num(0), length(s))]


SEGOPS = ("sl", "u", "gen")


def _flat(gs):
    for g in gs:
        if g.op == "sl" and g.args[0].op == "seq":
            b, lo, hi = g.args
            if numval(lo) == 0 and hi is length(b):
                yield from _flat(b.args[0])
                continue
            if len(b.args[0]) == 1 and b.args[0][0].op in ("sl", "gen"):
                h = b.args[0][0]
                if h.op == "sl":
                    yield sl(h.args[0], add(h.args[1], lo), add(h.args[1], hi))
                else:
                    yield mk("gen", h.args[0], add(h.args[1], lo), add(h.args[1], hi), h.args[3])
                continue
            yield g
        elif g.op in SEGOPS:
            yield g
        elif g.op == "seq":
            yield from _flat(g.args[0])
        else:
            yield sl(g, num(0), length(g))


def mkseq(gs):
    out = []
    for g in _flat(gs):
        n = numval(seglen(g)) if g.op in ("sl", "gen") else None
        if n == 0:
            continue
        if g.op == "gen":
            # gen of consecutive elements of one base is a slice
            k, lo, hi, t = g.args
            if t.op == "el" and t.args[0] not in subterms_set(k) and not mentions(t.args[0], k):
                off = sub(t.args[1], k)
                if not mentions(off, k):
                    g = sl(t.args[0], add(lo, off), add(hi, off))
        if out and g.op == "sl" and out[-1].op == "sl" and out[-1].args[0] is g.args[0] and out[-1].args[2] is g.args[1]:
            out[-1] = sl(g.args[0], out[-1].args[1], g.args[2])
            n = numval(seglen(out[-1]))
            if n == 0:
                out.pop()
            continue
        if out and out[-1].op == "gen":
            k, lo, hi, t = out[-1].args
            if g.op == "gen" and g.args[0] is k and g.args[1] is hi and g.args[3] is t:
                out[-1] = mk("gen", k, lo, g.args[2], t)
                continue
            if g.op == "u" and g.args[0].op == t.op and subst(t, {k: hi}) is g.args[0]:
                out[-1] = mk("gen", k, lo, add(hi, num(1)), t)
                continue
        out.append(g)
    if len(out) == 1 and out[0].op == "sl":
        s, a, b = out[0].args
        if numval(a) == 0 and b is length(s):
            return s
    return mk("seq", tuple(out))


EMPTY = mkseq([])


def concat(a, b):
    return mkseq(segs(a) + segs(b))


def subterms_set(t):
    return ()


# ---------------------------------------------------------------- substitution
def mentions(t, x, memo=None):
    if memo is None:
        memo = {}
    return _mentions(t, x, memo)


def _mentions(t, x, memo):
    if t is x:
        return True
    r = memo.get(t)
    if r is None:
        r = any(_ment_arg(a, x, memo) for a in t.args)
        memo[t] = r
    return r


def _ment_arg(a, x, memo):
    if isinstance(a, T):
        return _mentions(a, x, memo)
    if isinstance(a, tuple):
        return any(_ment_arg(b, x, memo) for b in a)
    return False


def subst(t, m, memo=None):
    """replace terms by terms, re-normalising"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    new = tuple(_subst_arg(a, m, memo) for a in t.args)
    r = t if new == t.args else rebuild(t.op, new)
    memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(b, m, memo) for b in a)
    return a


NORMALISERS = {}
APP_NORM = {}


def sumseq(s):
    """sum of the elements of a sequence of integers, as a linear combination of segment sums"""
    r = num(0)
    for g in segs(s):
        if g.op == "u":
            r = add(r, g.args[0])
        elif g.op == "gen":
            b, lo, hi, t = g.args
            c, d = _lin(t)
            r = add(r, scale(sub(hi, lo), c))
            for a, k in sorted(d.items(), key=lambda x: x[0].id):
                h = mkseq([mk("gen", b, lo, hi, a)])
                r = add(r, scale(mk("app", "sum", h), k) if h.op != "seq" or h.args[0] else num(0))
        else:
            h = mkseq([g])
            if h.op == "seq" and not h.args[0]:
                continue
            r = add(r, mk("app", "sum", h))
    return r


def rebuild(op, args):
    if op == "lin":
        r = num(args[0])
        for a, k in args[1]:
            r = add(r, scale(a, k))
        return r
    if op == "fld":
        return fld(*args)
    if op == "upd":
        b = args[0]
        for k, v in args[1]:
            b = setfld(b, *k, v)
        return b
    if op == "el":
        s, i = args
        return seq_index_plain(s, i)
    if op == "sl":
        s, a, b = args
        return sl(s, a, b)
    if op == "u":
        return unit(args[0])
    if op == "seq":
        gs = []
        for g in args[0]:
            if g.op == "sl" and g.args[0].op == "seq":
                gs.append(g)
            else:
                gs.append(g)
        return mkseq(gs)
    if op == "len":
        return length(args[0]) if args[0].op != "sl" else mk("len", args[0])
    if op == "ge0":
        return ge0(args[0])
    if op == "eq0":
        return eqi(args[0], num(0))
    if op == "eq":
        return eq(args[0], args[1])
    if op == "not":
        return neg(args[0])
    if op == "ite":
        return mkite(*args)
    if op == "arena" and isinstance(args[0], T) and args[0].op == "arena":
        return mk("arena", args[0].args[0], args[0].args[1] + args[1])
    if op == "app" and args[0] == "sum":
        return sumseq(args[1])
    if op == "app" and args[0] in APP_NORM:
        return APP_NORM[args[0]](*args[1:])
    if op in NORMALISERS:
        return NORMALISERS[op](*args)
    return mk(op, *args)


def seq_index_plain(s, i):
    """index without facts"""
    if s.op != "seq":
        return el(s, i)
    pos = num(0)
    for g in s.args[0]:
        d = numval(sub(i, pos))
        if g.op == "u":
            if d == 0:
                return g.args[0]
            if d is not None and d < 0:
                break
        elif g.op == "sl":
            w = numval(seglen(g))
            if d is not None and w is not None and 0 <= d < w:
                return el(g.args[0], add(g.args[1], sub(i, pos)))
        pos = add(pos, seglen(g))
    return el(s, i)


# what decides the variant of a value, when that is not the value itself
VARIANT_RULES = []


def valias(t):
    for r in VARIANT_RULES:
        x = r(t)
        if x is not None:
            return x
    return t


# ---------------------------------------------------------------- facts
OTHER = (("None", "Some"), ("Some", "None"), ("Leaf", "Internal"), ("Internal", "Leaf"))


class Facts:
    """Literals, enum variants, equalities and linear inequalities known on a path."""

    __slots__ = ("lits", "disc", "eqs", "num", "_memo", "contra")

    def __init__(self):
        self.lits = {}
        self.disc = {}
        self.eqs = {}
        self.num = ()
        self._memo = {}
        self.contra = False

    def copy(self):
        f = Facts()
        f.lits = dict(self.lits)
        f.disc = dict(self.disc)
        f.eqs = dict(self.eqs)
        f.num = self.num
        f._memo = {}
        f.contra = self.contra
        return f

    def key(self):
        return (
            frozenset((k.id, v) for k, v in self.lits.items()),
            frozenset((k.id, v) for k, v in self.disc.items()),
            frozenset((k.id, v.id) for k, v in self.eqs.items()),
            frozenset(x.id for x in self.num),
        )

    def meet(self, o):
        """facts that hold on both"""
        f = Facts()
        f.lits = {k: v for k, v in self.lits.items() if o.lits.get(k) == v}
        f.disc = {k: v for k, v in self.disc.items() if o.disc.get(k) == v}
        f.eqs = {k: v for k, v in self.eqs.items() if o.eqs.get(k) is v}
        s = set(o.num)
        f.num = tuple(x for x in self.num if x in s or o.implies(ge0(x)))
        f.num += tuple(x for x in o.num if x not in f.num and self.implies(ge0(x)))
        return f

    # -- equalities
    def canon(self, t):
        if not self.eqs:
            return t
        r = self._memo.get(t)
        if r is None:
            r = t
            for _ in range(6):
                n = subst(r, self.eqs)
                if n is r:
                    break
                r = n
            self._memo[t] = r
        return r

    def variant(self, t):
        if t.op == "rec":
            return t.args[1]
        t = valias(t)
        if isinstance(t, str):
            return t
        if t.op == "app" and t.args[0] == "allof":
            vs = {self.variant(x) for x in t.args[1:]}
            if len(vs) == 1:
                return vs.pop()
        v = self.disc.get(t)
        if v is None:
            t2 = self.canon(t)
            if t2.op == "rec":
                return t2.args[1]
            t2 = valias(t2)
            if isinstance(t2, str):
                return t2
            v = self.disc.get(t2)
        if isinstance(v, frozenset):
            # the other of two variants
            for x, y in OTHER:
                if x in v:
                    return y
        return v if isinstance(v, str) else None

    # -- literals
    def value(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op == "not":
            v = self.value(b.args[0])
            return None if v is None else not v
        v = self.lits.get(b)
        if v is not None:
            return v
        c = self.canon(b)
        if c is not b:
            v = self.value(c)
            if v is not None:
                return v
            b = c
        if b.op == "eq" and b.args[0].op == "rec" and b.args[1].op == "rec":
            ps = parts_equal(*b.args)
            if ps is not None:
                vs = [self.value(p) for p in ps]
                if False in vs:
                    return False
                if None not in vs:
                    return True
        if b.op == "ge0":
            if self.prove(b.args[0]):
                return True
            if self.prove(sub(scale(b.args[0], -1), num(1))):
                return False
        if b.op == "eq0":
            e = b.args[0]
            if self.prove(sub(e, num(1))) or self.prove(sub(scale(e, -1), num(1))):
                return False
            if self.prove(e) and self.prove(scale(e, -1)):
                return True
        if b.op == "isvar":
            v = self.variant(b.args[0])
            if v is not None:
                return v == b.args[1]
            ex = self.disc.get(b.args[0])
            if isinstance(ex, frozenset) and b.args[1] in ex:
                return False
        return None

    def implies(self, b):
        return self.value(b) is True

    def assume(self, b, pol=True):
        """add a literal; False when it contradicts what is known"""
        if not pol:
            b = neg(b)
        if b.op == "not" and b.args[0].op in ("eq", "eq0", "isvar", "app", "fld", "sym", "phi", "el"):
            pass
        v = self.value(b)
        if v is True:
            if b.op == "eq0" and b not in self.lits and not is_num(self.canon(b.args[0])):
                # implied by inequalities: terms are to be replaced all the same
                self._memo = {}
                self.lits[b] = True
                self._equate_zero(b.args[0])
                return not self.contra
            return True
        if v is False:
            return False
        self._memo = {}
        if b.op == "and":
            return all(self.assume(x) for x in b.args[0])
        if b.op == "eq" and b.args[0].op == "rec" and b.args[1].op == "rec":
            ps = parts_equal(*b.args)
            if ps is not None:
                self.lits[b] = True
                return all(self.assume(p) for p in ps)
        if b.op == "ge0":
            if self.lits.get(eqi(b.args[0], num(0))) is False:
                # known not to be zero
                self.lits[b] = True
                return self.assume(ge0(sub(b.args[0], num(1))))
            self.num = self.num + (b.args[0],)
            self.lits[b] = True
            n = scale(b.args[0], -1)
            if self.prove(n):
                self._equate_zero(b.args[0])
            self._tight(b.args[0], self.num[:-1])
            return not self.contra
        if b.op == "not":
            x = b.args[0]
            self.lits[x] = False
            if x.op in ("app", "fld", "sym", "phi", "el") and self.eqs:
                self.lits[self.canon(x)] = False
            if x.op == "isvar":
                ex = self.disc.get(x.args[0])
                ex = ex if isinstance(ex, frozenset) else frozenset()
                self.disc[x.args[0]] = ex | {x.args[1]}
            if x.op == "eq0":
                e = x.args[0]
                # e != 0 with a known sign
                if self.prove(e):
                    return self.assume(ge0(sub(e, num(1))))
                if self.prove(scale(e, -1)):
                    return self.assume(ge0(sub(scale(e, -1), num(1))))
            return True
        self.lits[b] = True
        if b.op in ("app", "fld", "sym", "phi", "el") and self.eqs:
            self.lits[self.canon(b)] = True
        if b.op == "isvar":
            self.disc[b.args[0]] = b.args[1]
        elif b.op == "eq":
            self._merge(b.args[0], b.args[1])
        elif b.op == "eq0":
            old = [x for x in self.num if set(_lin(x)[1]) & set(_lin(b.args[0])[1])]
            self.num = self.num + (b.args[0], scale(b.args[0], -1))
            self._equate_zero(b.args[0])
            for x in old:
                x = self.canon(x)
                if numval(x) is None and self.prove(scale(x, -1)):
                    self._equate_zero(x)
        return not self.contra

    def _tight(self, e, among):
        """inequalities that have become equalities"""
        ats = set(_lin(e)[1])
        for x in among:
            x = self.canon(x)
            if numval(x) is None and ats & set(_lin(x)[1]) and x is not e and self.prove(scale(x, -1)):
                self._equate_zero(x)

    def _equate_zero(self, e):
        e = self.canon(e)
        if numval(e) is not None:
            self.contra = self.contra or numval(e) != 0
            return
        c, d = _lin(e)
        # solve for the youngest atom with coefficient +-1
        best = None
        for a, k in d.items():
            if abs(k) == 1 and a.op not in ("phi",):
                if best is None or rank(a) > rank(best):
                    best = a
        if best is None:
            for a, k in d.items():
                if abs(k) == 1:
                    best = a
        if best is None:
            return
        k = d[best]
        rest = mklin(c, {a: v for a, v in d.items() if a is not best})
        val = scale(rest, -1) if k == 1 else rest
        if not mentions(val, best):
            self.eqs[best] = val
            keep = list(atom_facts(best)) + ([val] if nonneg(best) else [])
            self.num = self.num + tuple(x for x in keep if numval(x) is None and x not in self.num)
            self._memo = {}
            self._congruence(best)

    def _merge(self, a, b):
        a = self.canon(a)
        b = self.canon(b)
        if a is b:
            return
        if rank(a) < rank(b):
            a, b = b, a
        # a -> b (b is older / simpler)
        if mentions(b, a):
            a, b = b, a
            if mentions(b, a):
                return
        self.eqs[a] = b
        self._memo = {}
        if b.op == "rec" and a.op != "rec":
            self.disc[a] = b.args[1]
        for x, y in ((a, b), (b, a)):
            v = self.disc.get(x)
            if isinstance(v, str) and y not in self.disc and y.op != "rec":
                self.disc[y] = v
        self._congruence(a)

    def define(self, a, b):
        """from now on `a` is written as `b`"""
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return True
        if a.op == "lin" or numval(a) is not None or mentions(b, a):
            return self.assume(eqi(a, b))
        self.eqs[a] = b
        self._memo = {}
        self._congruence(a)
        return not self.contra

    def _congruence(self, a):
        """what was known about terms built from `a` holds for the same terms built from its new name"""
        new = []
        for x, y in self.eqs.items():
            if x is not a and mentions(x, a):
                x2, y2 = self.canon(self._inner(x)), self.canon(y)
                if x2 is not y2:
                    new.append((x2, y2))
        for x, v in list(self.disc.items()):
            if mentions(x, a):
                x2 = self.canon(x)
                if x2.op == "rec":
                    if isinstance(v, str) and x2.args[1] != v or not isinstance(v, str) and x2.args[1] in v:
                        self.contra = True
                    continue
                o = self.disc.get(x2)
                if isinstance(v, str) and isinstance(o, str) and o != v:
                    self.contra = True
                elif isinstance(v, str):
                    self.disc[x2] = v
                elif o is None:
                    self.disc[x2] = v
        for l, v in list(self.lits.items()):
            if l.op not in ("ge0", "eq0") and mentions(l, a):
                l2 = self.canon(l)
                if l2 is TRUE or l2 is FALSE:
                    if (l2 is TRUE) != v:
                        self.contra = True
                elif l2.op not in ("ge0", "eq0", "not", "and"):
                    if self.lits.setdefault(l2, v) != v:
                        self.contra = True
        for x, y in new:
            x, y = self.canon(x), self.canon(y)
            if x is y:
                continue
            if x.op in ("lin", "num", "len") or y.op in ("lin", "num", "len"):
                e = sub(x, y)
                if numval(e) is not None:
                    self.contra = True
                    continue
                self.num = self.num + (e, scale(e, -1))
                self._equate_zero(e)
            elif x.op == y.op == "rec" and x.args[:2] != y.args[:2]:
                self.contra = True
            else:
                self._merge(x, y)

    def _inner(self, x):
        """x with its parts, not itself, brought up to date"""
        m = {k: v for k, v in self.eqs.items() if k is not x}
        for _ in range(6):
            n = subst(x, m)
            if n is x:
                break
            x = n
        return x

    def system(self, extra):
        """linear constraints relevant to the atoms of `extra`"""
        out = [self.canon(x) for x in extra]
        todo = list(out)
        rel = list(self._rel())
        seen = set()
        while todo:
            e = todo.pop()
            for a in _lin(e)[1]:
                if a in seen:
                    continue
                seen.add(a)
                if nonneg(a):
                    out.append(a)
                for f in atom_facts(a):
                    f = self.canon(f)
                    out.append(f)
                    todo.append(f)
                for f in list(rel):
                    if a in _lin(f)[1]:
                        rel.remove(f)
                        out.append(f)
                        todo.append(f)
        return out

    def entail(self, e):
        """e >= 0 on every valuation satisfying the linear facts: True / False / None"""
        e = self.canon(e)
        n = numval(e)
        if n is not None:
            return n >= 0
        if self.prove(e):
            return True
        bad = sub(scale(e, -1), num(1))
        r = fm_feasible(self.system([bad]))
        return None if r is None else not r

    def entail_eq(self, a, b):
        d = self.canon(sub(a, b))
        n = numval(d)
        if n is not None:
            return n == 0
        x = self.entail(d)
        if x is not True:
            return x
        return self.entail(scale(d, -1))

    # -- inequalities: e >= 0
    def prove(self, e, depth=4):
        e = self.canon(e)
        n = numval(e)
        if n is not None:
            return n >= 0
        k = ("prove", e)
        r = self._memo.get(k)
        if r is None:
            r = _prove(e, self._rel(), depth)
            if not r:
                r = fm_feasible(self.system([sub(scale(e, -1), num(1))]), 400) is False
            self._memo[k] = r
        return r

    def _rel(self):
        r = self._memo.get("rel")
        if r is None:
            r = []
            for x in self.num:
                x = self.canon(x)
                if numval(x) is None and x not in r:
                    r.append(x)
            self._memo["rel"] = r
        return r


def fm_feasible(cons, limit=4000):
    """rational feasibility of a set of linear constraints e >= 0 (Fourier-Motzkin); None if too big"""
    rows = set()
    for e in cons:
        c, d = _lin(e)
        rows.add((c, tuple(sorted(((a.id, k) for a, k in d.items())))))
    while True:
        vs = {}
        for c, d in rows:
            if not d and c < 0:
                return False
            for a, k in d:
                p = vs.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not vs:
            return True
        v = min(vs, key=lambda x: vs[x][0] * vs[x][1])
        pos, negs, rest = [], [], set()
        for r in rows:
            k = dict(r[1]).get(v, 0)
            (pos if k > 0 else negs).append((k, r)) if k else rest.add(r)
        if len(pos) * len(negs) + len(rest) > limit:
            return None
        for kp, (cp, dp) in pos:
            for kn, (cn, dn) in negs:
                d = {}
                for a, k in dp:
                    d[a] = d.get(a, 0) - kn * k
                for a, k in dn:
                    d[a] = d.get(a, 0) + kp * k
                c = -kn * cp + kp * cn
                it = tuple(sorted((a, k) for a, k in d.items() if k))
                g = 0
                from math import gcd
                for _, k in it:
                    g = gcd(g, abs(k))
                if g > 1:
                    it = tuple((a, k // g) for a, k in it)
                    c = c // g if c >= 0 or c % g == 0 else -((-c + g - 1) // g)
                if not it:
                    if c < 0:
                        return False
                    continue
                rest.add((c, it))
        rows = rest


def rank(t):
    """older / simpler terms have smaller rank"""
    if t.op == "lin" or t.op == "rec":
        return (0, 0)
    if t.op == "sym":
        return (1, 0, 0, t.id)
    d = depth(t)
    if t.op == "app" and t.args[0] == "sum":
        return (1, 0, d, t.id)
    return (2, d, t.id)


_depth = {}


def depth(t):
    r = _depth.get(t)
    if r is None:
        r = 1 + max([_dep_arg(a) for a in t.args] + [0])
        _depth[t] = r
    return r


def _dep_arg(a):
    if isinstance(a, T):
        return depth(a)
    if isinstance(a, tuple):
        return max([_dep_arg(x) for x in a] + [0])
    return 0


# atoms with known upper bounds / side constraints: function atom -> list of lin terms >= 0
ATOM_FACTS = []


def atom_facts(a):
    out = []
    if a.op == "div":
        q, x, n = a, a.args[0], a.args[1]
        out.append(sub(x, scale(q, n)))  # x - n q >= 0
        out.append(sub(add(scale(q, n), num(n - 1)), x))
    if a.op == "max" or a.op == "min":
        x, y = a.args
        if a.op == "min":
            out += [sub(x, a), sub(y, a)]
        else:
            out += [sub(a, x), sub(a, y)]
    for f in ATOM_FACTS:
        out += f(a)
    return out


SIGNED = set()


def nonneg(a):
    return a not in SIGNED and not (a.op == "app" and a.args and str(a.args[0]).startswith("signed"))


def _prove(e, cons, depth, seen=None):
    c, d = _lin(e)
    negs = [a for a, k in d.items() if k < 0 or not nonneg(a)]
    if not negs:
        return c >= 0
    if depth == 0:
        return False
    # eliminate one negative atom using a constraint that has it with a positive coefficient
    a = max(negs, key=lambda x: x.id)
    k = -d[a]
    cand = []
    extra = []
    for x in d:
        extra += atom_facts(x)
    for f in list(extra) + list(cons):
        fc, fd = _lin(f)
        # f >= 0 has a term  fk * a ; want e = lam * f + rest, i.e. subtract lam*f
        fk = fd.get(a, 0)
        if d[a] < 0 and fk < 0:
            cand.append((f, fk))
        elif d[a] > 0 and fk > 0:
            cand.append((f, fk))
    for f, fk in cand:
        # e*|fk| - f*|k|
        e2 = sub(scale(e, abs(fk)), scale(f, abs(d[a])))
        if _prove(e2, cons, depth - 1):
            return True
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 9:
        return "…"
    s = lambda x: show(x, d + 1)
    if t.op == "lin":
        c, it = t.args
        parts = [("" if k == 1 else "-" if k == -1 else str(k) + "*") + s(a) for a, k in it]
        if c or not parts:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "bool":
        return str(t.args[0])
    if t.op == "rec":
        ty, v, f = t.args
        n = v if v else str(ty).split("::")[-1]
        return n + ("(" + ", ".join(s(x) for x in f) + ")" if f else "")
    if t.op == "fld":
        return s(t.args[0]) + "." + str(t.args[3])
    if t.op == "upd":
        return s(t.args[0]) + "{" + ", ".join(str(k[2]) + ":=" + s(v) for k, v in t.args[1]) + "}"
    if t.op == "el":
        return s(t.args[0]) + "[" + s(t.args[1]) + "]"
    if t.op == "nd":
        return "node(" + s(t.args[1]) + ")"
    if t.op == "sl":
        return s(t.args[0]) + "[" + s(t.args[1]) + ".." + s(t.args[2]) + "]"
    if t.op == "u":
        return "<" + s(t.args[0]) + ">"
    if t.op == "seq":
        return "++".join(s(g) for g in t.args[0]) or "[]"
    if t.op == "len":
        return "len(" + s(t.args[0]) + ")"
    if t.op == "app":
        return str(t.args[0]) + "(" + ", ".join(s(x) for x in t.args[1:]) + ")"
    if t.op == "ge0":
        return s(t.args[0]) + ">=0"
    if t.op in ("eq",):
        return s(t.args[0]) + "==" + s(t.args[1])
    if t.op == "eq0":
        return s(t.args[0]) + "==0"
    if t.op == "not":
        return "!" + s(t.args[0])
    if t.op == "isvar":
        return s(t.args[0]) + " is " + str(t.args[1])
    if t.op == "arena":
        return "arena(" + s(t.args[0]) + "; " + "; ".join(s(x) for x in t.args[1]) + ")"
    return t.op + "(" + ", ".join(s(a) for a in t.args) + ")"
