"""Sharing and hidden state (C13), dependence on anything but the operations (C14), copies and emptying (C13)."""
import re
from .p_tree import *
from .p_nav import NavOp
from .engine import Interp, Site
from . import judge as J

# ------------------------------------------------------------------ rules over types and call sites
CELLS = re.compile(r"(?:^|[^\w])(?:UnsafeCell|SyncUnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|ReentrantLock|OnceLock|LazyLock|Condvar|Atomic\w*|Once|mpsc|Sender|Receiver|LocalKey)(?:$|[^\w])")
SHARED = re.compile(r"(?:^|[^\w])(?:Rc|Arc|Weak)(?:$|[^\w])")
RANDOM = re.compile(r"RandomState")

# what a call may depend on besides its arguments
OUTSIDE = [
    (re.compile(r"^(std|core|alloc)::time::(Instant|SystemTime)"), "the clock"),
    (re.compile(r"^std::time::(Instant|SystemTime)"), "the clock"),
    (re.compile(r"^std::env::"), "the environment"),
    (re.compile(r"^std::process::(id|Command)"), "the process"),
    (re.compile(r"^std::thread::|^std::thread$"), "threads"),
    (re.compile(r"^std::(fs|net|os)::"), "the outside world"),
    (re.compile(r"^std::io::(stdin|Stdin|read_to_string)|^std::io::stdio::(stdin|Stdin)"), "the outside world"),
    (re.compile(r"(^|::)fmt::Pointer(::|$)|::new_pointer$"), "an address"),
    (re.compile(r"(^|::)RandomState"), "the hash seed of the process"),
    (re.compile(r"^(rand|getrandom|fastrand|oorandom|rand_core|rand_chacha)::"), "random numbers"),
    (re.compile(r"::random(_\w+)?$"), "random numbers"),
    (re.compile(r"^(std|core)::ptr::(const_ptr|mut_ptr|non_null)?.*(::addr|expose_provenance|::expose_addr)"), "an address"),
    (re.compile(r"^std::panic::Location|::Location.*::caller"), None),
]
ORDERED_BY_HASH = re.compile(r"^<?(std::collections::|hashbrown::|std::collections::hash)")
WALKS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "extract_if", "next"}


def is_test(b):
    return "::test::" in b["path"] or "::tests::" in b["path"]


def calls(b):
    for i, bl in enumerate(b["blocks"]):
        t = bl["t"]
        if t and t.get("k") == "call":
            f = t.get("f")
            if f and f[0] == "k" and isinstance(f[1], dict) and "fn" in f[1]:
                yield t, f[1]["fn"], f[1].get("ty", "")


def where(b, t):
    sp = t.get("span") if isinstance(t, dict) else t
    return "%s (%s:%s)" % (b["path"], sp[0], sp[1]) if sp else b["path"]


def sharing(prog, rep):
    """no interior mutability and no shared ownership is reachable from the data, so a shared reference cannot change it"""
    d = prog.d
    n = 0
    for a in d["adts"]:
        bad = [x for x in a.get("reach", ()) if CELLS.search(x.split(" | ")[0]) or SHARED.search(x.split(" | ")[0])]
        own = [(f["name"], f["ty"]) for v in a["variants"] for f in v["fields"] if CELLS.search(f["ty"]) or SHARED.search(f["ty"])]
        n += 1
        rep.add("no interior mutability or shared ownership in %s" % a["path"], "bad" if bad or own else "ok", "%s" % ((own or bad)[:3],))
    rep.floor("types whose fields were followed", n, 10)
    for s in d.get("statics", ()):
        m = s.get("mut") or CELLS.search(str(s.get("ty", ""))) is not None
        rep.add("no state outside the data: %s" % s.get("path"), "bad" if m else "ok", str(s)[:200])
    # unsafe code is forbidden by the crate itself
    k = 0
    for b in d["bodies"]:
        if is_test(b):
            continue
        k += 1
        for t, f, ty in calls(b):
            if CELLS.search(f["path"]) or "LocalKey" in ty:
                rep.add("no hidden state: %s" % b["path"], "bad", "calls %s at %s" % (f["path"], where(b, t)))
    rep.add("no state is kept outside the data", "ok")
    rep.ran("types", n)
    rep.ran("bodies searched for hidden state", k)


# what a pass over a map may call without its order showing: reads, and stores keyed by the entry itself
ORDERLESS = {"next", "get", "get_mut", "get2_mut", "unwrap", "expect", "deref", "deref_mut", "index", "index_mut", "clone", "eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge",
             "contains", "contains_key", "unwrap_internal", "unwrap_leaf", "is_some", "is_none", "as_ref", "as_mut", "take", "len", "is_empty", "copied", "cloned", "unwrap_or",
             "add_assign", "sub_assign", "add", "sub", "into", "from", "max", "min", "iter", "iter_mut", "into_iter", "default"}
LENGTHLESS = {"sum", "count", "len", "all", "any", "max", "min", "product", "is_empty", "size_hint"}
LAZY = {"map", "filter", "filter_map", "copied", "cloned", "enumerate", "rev", "skip", "take", "into_iter", "iter", "by_ref", "flat_map", "flatten", "chain", "zip", "inspect", "clone", "peekable"}
KEYED = re.compile(r"^(std::collections::(HashMap|HashSet|BTreeMap|BTreeSet|hash_map|hash_set)|std::collections::(btree_map|btree_set)|hashbrown)")
HASHED = re.compile(r"^&*(mut )?std::collections::(HashMap|HashSet)$")


def succs(t):
    out = [t["t"]] if isinstance(t.get("t"), int) else []
    out += [x[1] for x in t.get("ts") or ()]
    if isinstance(t.get("o"), int):
        out.append(t["o"])
    return out


def seeded_walks(b, d):
    """passes over a map or set with a per-process hash seed whose order can show in the result"""
    kv = set()
    for l in b["locals"]:
        ty = l["ty"]
        if HASHED.match(ty.get("adt") or "") and any(RANDOM.search(x) for x in ty.get("targs", ())):
            i = next(i for i, x in enumerate(ty["targs"]) if RANDOM.search(x))
            kv.add(tuple(ty["targs"][:i]))
    if not kv:
        return []
    mine = lambda s: ("hash_map::" in s or "hash_set::" in s) and any(all(x in s for x in k) for k in kv)
    walks = False
    out = []
    sites = list((i, bl["t"]) + ((fn,) if fn else ()) for i, bl in enumerate(b["blocks"]) for fn in [called(bl["t"])] if fn)
    for i, t, f in sites:
        last = f["path"].split("::")[-1]
        tys = [a.get("s", "") for a in t.get("atys", ())]
        recv = tys[0] if tys else ""
        if not mine(recv):
            # handed to something else whole, e.g. Vec::extend
            if last in ("extend", "from_iter", "append") and not KEYED.match(recv.lstrip("&").replace("mut ", "")) and any(mine(x) for x in tys[1:]):
                out.append((f["path"], t))
            if not any(seeded(a) for a in t.get("atys", ())):
                continue
        if last == "next":
            bad = loop_order(b, i, d)
            if bad:
                out.append(bad)
        elif last in LENGTHLESS or last in LAZY or last in ("get", "get_mut", "insert", "remove", "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "key"):
            pass
        elif last == "collect":
            r = (t.get("dty") or {}).get("s", "")
            if mine(recv) and not KEYED.match(r):
                out.append((f["path"], t))
        elif mine(recv) and last in ("fold", "for_each", "try_fold", "try_for_each", "reduce", "last", "nth", "position", "find", "find_map", "extend", "unzip", "partition", "join", "eq", "cmp"):
            out.append((f["path"], t))
    return out


def seeded(ty):
    return HASHED.match(ty.get("adt") or "") is not None and any(RANDOM.search(x) for x in ty.get("targs", ()))


def called(t):
    if t and t.get("k") == "call":
        f = t.get("f")
        if f and f[0] == "k" and isinstance(f[1], dict) and "fn" in f[1]:
            return f[1]["fn"]
    return None


def lookup(f, d, depth=3):
    """a function of the crate that only looks things up"""
    if depth == 0 or not f.get("local"):
        return False
    bs = [b for b in d["bodies"] if b["path"] == f["path"]]
    return bool(bs) and all(panics(g) or g["path"].split("::")[-1] in ORDERLESS or lookup(g, d, depth - 1) for b in bs for bl in b["blocks"] for g in [called(bl["t"])] if g)


def panics(f):
    return "panic" in f["path"] or "fmt::" in f["path"]


def loop_order(b, head, d):
    """a call in the loop around block `head` through which the order of the rounds can show"""
    n = len(b["blocks"])
    su = [succs(bl["t"]) if bl["t"] else [] for bl in b["blocks"]]
    fwd, todo = set(), list(su[head])
    while todo:
        x = todo.pop()
        if x not in fwd and x != head:
            fwd.add(x)
            todo += su[x]
    pre = [[] for _ in range(n)]
    for i, ss in enumerate(su):
        for x in ss:
            pre[x].append(i)
    back, todo = set(), list(pre[head])
    while todo:
        x = todo.pop()
        if x not in back and x != head:
            back.add(x)
            todo += pre[x]
    for i in sorted(fwd & back):
        t = b["blocks"][i]["t"]
        f = called(t)
        if f is None:
            if t and t.get("k") == "call":
                return "a function value", t
            continue
        last = f["path"].split("::")[-1]
        if last in ORDERLESS or lookup(f, d):
            continue
        tys = t.get("atys", ())
        if last in ("insert", "remove", "entry", "or_insert", "or_default", "retain") and tys and (KEYED.match(tys[0].get("s", "").lstrip("&").replace("mut ", "")) is not None):
            continue
        return f["path"], t
    return None


def determinism(prog, rep):
    """no result can depend on hash seeds, addresses, time, environment, threads or state kept elsewhere"""
    d = prog.d
    n = sites = 0
    for b in d["bodies"]:
        if is_test(b):
            continue
        n += 1
        bad = []
        for t, f, ty in calls(b):
            sites += 1
            names = [f["path"], f.get("rpath") or "", f.get("id") or ""]
            for rx, what in OUTSIDE:
                if what and any(rx.search(x) for x in names if x):
                    bad.append((what, f["path"], t))
                    break
            else:
                pass
        bad += [("the hash seed of the process", p, t) for p, t in seeded_walks(b, d)]
        for bl in b["blocks"]:
            for st in bl["s"]:
                if st[0] == "=" and st[2][0] == "cast" and "PointerExpose" in str(st[2]):
                    bad.append(("an address", "cast", {"span": st[3] if len(st) > 3 else None}))
        key = "depends only on its arguments: %s" % b["path"]
        if bad:
            for what, p, t in bad[:3]:
                rep.add(key, "bad", "%s: %s at %s" % (what, p, where(b, t) if t else b["path"]))
        else:
            rep.add(key, "ok")
    for s in d.get("statics", ()):
        m = s.get("mut") or CELLS.search(str(s.get("ty", ""))) is not None
        rep.add("no state survives outside the data: %s" % s.get("path"), "bad" if m else "ok", str(s)[:200])
    rep.floor("function bodies searched", n, 100)
    rep.floor("call sites searched", sites, 500)
    rep.ran("bodies searched", n)


# ------------------------------------------------------------------ copies
def clones(prog, rep):
    """a copy has every field of the original"""
    for im in prog.d["impls"]:
        if not (im.get("trait") or "").endswith("::Clone"):
            continue
        ty = im["self"].get("adt")
        a = next((x for x in prog.d["adts"] if x["path"] == ty), None)
        b = prog.method(ty, "clone", "std::clone::Clone") if ty else None
        if a is None or b is None:
            continue
        sp = Spec(prog, rep)
        I = sp.interp()
        label = "copy of %s" % ty
        with guarded(rep, label, 60):
            outs = sp.run(I, b, [ref("self")], State(), label, panics=False)
            for v, s in outs:
                if a["enum"]:
                    rep.judge("a copy equals its original: " + ty, J.equal(I, s, v, val("self")), "got %s" % v)
                    continue
                for i, f in enumerate(a["variants"][0]["fields"]):
                    got, want = s.facts.canon(fld(v, None, i, f["name"])), s.facts.canon(fld(val("self"), None, i, f["name"]))
                    rep.judge("a copy has the original's %s: %s" % (f["name"], ty), same(I, s, got, want), "got %s" % got)


def same(I, s, got, want):
    if got is want:
        return True
    if got.op == "arena" and not got.args[1] and got.args[0] is want:
        return True
    r = J.equal(I, s, got, want)
    if r is not None:
        return r
    # another value altogether: nothing of the original is in it
    if not got.unk and clean_path(s) and not mentions(got, want):
        return False
    return None


def mentions(t, x):
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if isinstance(y, tuple):
            todo += y
        elif hasattr(y, "op") and y not in seen:
            seen.add(y)
            todo += y.args
    return False


def nothing_in(op, s, tree, label, pid="C13"):
    """the tree has one node, the root, without children and parent"""
    I, T, sink = op.I, op.T, op.sink
    C = s.facts.canon
    r = C(fn(tree, "BTree", "root"))
    IN, LN = fn(tree, "BTree", "in_nodes"), fn(tree, "BTree", "leaf_nodes")
    (ib, il), (lb, ll) = I.arena_parts(IN), I.arena_parts(LN)
    empty = mk("app", "emptyarena")
    ok_ = lambda x: "ok" if x is True else "bad" if x is False else "open"
    known = clean_path(s)
    old = lambda b: b in (T.IN0, T.LN0) or b.op == "epoch"
    live = [l for l in ll if not (l.op == "w" and l.args[1] is DEAD)]
    sink.put(pid, "no element is left: " + label, ok_(True if lb is empty and not live else False if known and (old(lb) or live) else None), "leaves %s" % LN)
    nodes = [l for l in il if not (l.op == "w" and l.args[1] is DEAD)]
    sink.put(pid, "only the root is left: " + label, ok_(True if ib is empty and len(nodes) == 1 else False if known and (old(ib) or len(nodes) != 1) else None), "nodes %s" % IN)
    if r.op != "rec" or r.args[1] != "Internal":
        sink.put(pid, "the root is a node: " + label, "bad" if known and r.op == "rec" else "open", "root %s" % r)
        return
    n = I.arena_get(s, IN, r.args[2][0])
    if n is DEAD or n.op == "nd" and n.args[0] is empty:
        sink.put(pid, "the root exists: " + label, "bad" if known else "open", "root %s" % r)
        return
    sink.put(pid, "the root has no children: " + label, ok_(J.equal(I, s, length(F(n, "Node", "children")), num(0))), "")
    sink.put(pid, "the root has no parent: " + label, ok_(J.equal(I, s, F(n, "Node", "parent"), NONE)), "")
    c = C(fn(tree, "BTree", "root_cache"))
    # a root without children still holding a summary
    kept = c is C(fn(T.me, "BTree", "root_cache"))
    sink.put(pid, "the summary is that of an empty tree: " + label, ok_(False if kept and known else True if numval(c) == 0 or c is T.th.default() or c.op == "app" and "default" in str(c.args[0]) else None), "summary %s" % c)


@part("C13", "C20", "C01", "C05")
def clear(prog, rep, sink):
    with NavOp(prog, rep, sink, "clear") as op:
        for v, s in op.run([ref("self")], op.T.start(op.I)):
            nothing_in(op, s, op.T.now(s), "clear")


@part("C13", "C20")
def new(prog, rep, sink):
    with NavOp(prog, rep, sink, "new") as op:
        for v, s in op.run([], op.T.start(op.I)):
            nothing_in(op, s, v, "new")


@part("C13", "C10", "C20")
def Rope_clear(prog, rep, sink):
    with NavOp(prog, rep, sink, "Rope::clear", inside=(("generic_impl::rope::Rope", "tree"),)) as op:
        for v, s in op.run([ref("self")], op.T.start(op.I)):
            nothing_in(op, s, op.T.now(s), "Rope::clear")
            nothing_in(op, s, op.T.now(s), "Rope::clear", "C10")
            c = fn(op.I.deref(s, ref("self")), "generic_impl::rope::Rope", "cursor")
            op.judge("C10", "no remembered position survives", s, c, NONE)


# ------------------------------------------------------------------ the empty tree
ROPE = "generic_impl::rope::Rope"
MAP = "generic_impl::ord::OrdTreeMap"
SET = "generic_impl::ord::OrdTreeSet"
HOMES = {"BTree": (), ROPE: ((ROPE, "tree"),), MAP: ((MAP, "tree"),), SET: ((SET, "0"), (MAP, "tree"))}
PLACES = re.compile(r"(?:^|[^\w])(?:Cursor|LeafIndex|QueryResult|ArenaIndex|Index|Idx|ElemSlice)(?:$|[^\w])")
@part("C05", "C13", "C21")
def get_elem(prog, rep, sink):
    by_handle(prog, rep, sink, "get_elem")


@part("C05", "C21")
def get_elem_mut(prog, rep, sink):
    by_handle(prog, rep, sink, "get_elem_mut")


def by_handle(prog, rep, sink, name):
    """a live handle gives its element, any other gives nothing, the tree is only looked at"""
    with NavOp(prog, rep, sink, name) as op:
        T, I = op.T, op.I
        k = sym("k")
        for v, s in op.run([ref("self"), mk("rec", "LeafIndex", None, (k,))], T.start(I)):
            unchanged(op, s, "")
            live = s.facts.value(mk("app", "alive", T.ld(k)))
            if live is False:
                op.judge("C21", "an unknown handle yields nothing", s, v, NONE)
            elif live is True:
                if s.facts.variant(v) == "None":
                    op.judge_known("C05", "a live handle yields its element", s, False)
                else:
                    op.judge("C05", "a live handle yields its element", s, I.deref(s, fld(v, "Some", 0, "0")), T.elem0(k))


NOT_READS = {"check", "diagnose", "diagnose_balance", "fmt", "clone", "slice", "update_in_place"}


def reads(prog):
    """public operations on a shared reference that name no place in the tree"""
    out = []
    for b in prog.bodies.values():
        d = b.d
        s = d.get("impl_self") or {}
        if s.get("adt") not in HOMES or d.get("kind") != "AssocFn" or d["name"] in NOT_READS or is_test(d):
            continue
        if d.get("vis") != "pub" or not d["argc"]:
            continue
        me = d["locals"][1]["ty"]
        if me.get("adt") != s["adt"] or me.get("refs") != 1 or me.get("mut"):
            continue
        args = [d["locals"][i]["ty"].get("s", "") for i in range(2, d["argc"] + 1)]
        if any(PLACES.search(x) and not re.match(r"^impl (\w+::)*RangeBounds<", x) for x in args):
            continue
        out.append(b)
    shown = prog.method(ROPE, "fmt", "std::fmt::Display")
    if shown is not None:
        out.append(shown)
    return sorted(out, key=lambda b: b.path)


def nothing_there(T, I, st):
    """the tree holds nothing, as new or after everything was removed"""
    I.assume(st, eqi(length(T.children(T.R)), num(0)))
    st.facts.define(fn(T.me, "BTree", "root_cache"), num(0))
    return st


def empty_read(b):
    ty = b.d["impl_self"]["adt"]

    def f(prog, rep, sink):
        body = next((x for x in prog.bodies.values() if x.path == b.path), None)
        if body is None:
            return
        name = "%s::%s" % (ty.split("::")[-1], b.d["name"])
        with NavOp(prog, rep, sink, b.d["name"], inside=HOMES[ty], drop=("BTree::" + b.d["name"],)) as op:
            T, I = op.T, op.I
            op.body = body
            op.label = name + " of an empty tree"
            st = nothing_there(T, I, T.start(I))
            if ty in (MAP, SET):
                m = val("self") if ty == MAP else fn(val("self"), SET, "0")
                st.facts.define(fn(m, MAP, "len"), num(0))
            for i in range(2, b.d["argc"] + 1):
                if "RangeBounds<" in b.d["locals"][i]["ty"].get("s", ""):
                    unbounded(I, st, sym("arg%d" % i))
            args = [ref("self")] + [sym("arg%d" % i) for i in range(2, b.d["argc"] + 1)]
            for v, s in op.run(args, st):
                sink.put("C20", "an answer comes back: " + op.label, "ok")
                empty_answer(op, s, b.d["locals"][0]["ty"], v)
    return f


def unbounded(I, st, r):
    """no place can be named in an empty tree"""
    for n in ("start_bound", "end_bound"):
        for x in (r, mk("deref", r)):
            I.assume(st, isvar_(mk("app", n, x), "Unbounded"))


def empty_answer(op, s, ty, v):
    I = op.I
    t = ty.get("s", "")
    C = s.facts.canon
    v = C(v)
    if t == "bool" and op.name == "is_empty":
        op.judge("C20", "it says so", s, v, TRUE)
    elif v.op == "rec" and str(v.args[0]) in ("I:fromfn", "I:map", "I:opaque", "I:seq", "I:filter", "I:fmap", "I:flat", "I:take", "I:windows", "I:skip"):
        from .models import inext
        I.panic_states = []
        site = Site(op.body.path, 0, ("src", 0), 0)
        try:
            outs = inext(I, s, v, site, {"dty": {}, "atys": [], "span": ("src", 0)})
        except Exception:
            outs = None
        if outs is None:
            op.sink.put("C20", "its answer yields nothing: " + op.label, "open", "iterator not understood")
            return
        for x, _n, s2 in outs:
            if x is None:
                op.sink.put("C20", "its answer yields nothing: " + op.label, "ok")
            else:
                op.judge("C20", "its answer yields nothing", s2, FALSE, TRUE)
    elif t.startswith("std::option::Option<"):
        op.judge("C20", "there is nothing to name", s, v, NONE)
    elif op.name == "len":
        op.judge("C20", "it holds nothing", s, v, num(0))


_seen = set()


def register_reads(prog):
    for b in reads(prog):
        n = "empty:" + b.path
        if n in _seen:
            continue
        _seen.add(n)
        PARTS.append((n, frozenset(("C20",)), empty_read(b), 60))
