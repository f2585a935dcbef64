"""Contracts of the crate's public traits for the opaque parameter types.

An abstract tree is an ordered list of items: named entries ('e', key, value)
and rest markers ('r', id, lo, hi) standing for *any* finite set (possibly
empty) of further entries with keys strictly inside the open interval (lo, hi).
"""
from domain import *
from models_std import NONE, some, ok, err, tup, boolv, unwrap

CON = {}


def contract(*names):
    def d(f):
        for n in names:
            CON[n] = f
        return f
    return d


def pos(t):
    return t[1] if len(t) == 2 else t[1:]


def order(x, y):
    a, b = pos(x), pos(y)
    return (a > b) - (a < b)


ORD = {-1: Agg(0, ()), 0: Agg(1, ()), 1: Agg(2, ())}


class ATreeV(Opq):
    """Abstract VebTree."""
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind, self.items = kind, tuple(items)

    def __eq__(self, o):
        return isinstance(o, ATreeV) and self.kind == o.kind and self.items == o.items

    def __hash__(self):
        return hash((self.kind, self.items))

    def __repr__(self):
        return f"{self.kind}{{{', '.join((repr(i[1]) + (':' + repr(i[2]) if i[2] != UNIT else '')) if i[0] == 'e' else '…' for i in self.items)}}}"

    def sub(self, sel):
        if sel[0] == "s":
            if sel[1] == "key":
                return sel[2]
            for it in self.items:
                if it[0] == "e" and it[1] == sel[2]:
                    return it[2]
        raise Undecided(f"place {sel} of {self!r}")

    def with_sub(self, sel, v):
        if sel[0] == "s" and sel[1] == "val":
            return ATreeV(self.kind, [("e", it[1], v) if it[0] == "e" and it[1] == sel[2] else it for it in self.items])
        raise Undecided(f"write to {sel}")

    def cloned(self, I):
        return self


def entries(items):
    return [i for i in items if i[0] == "e"]


class ACollV(Opq):
    """Abstract TreeCollection: ordered ('e', hi, tree) / ('r', id, lo, hi)."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, ACollV) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "coll{" + ", ".join(f"{i[1]!r}->{i[2]!r}" if i[0] == "e" else "…" for i in self.items) + "}"

    def sub(self, sel):
        if sel[0] == "s":
            if sel[1] == "key":
                return sel[2]
            for it in self.items:
                if it[0] == "e" and it[1] == sel[2]:
                    return it[2]
        raise Undecided(f"place {sel} of {self!r}")

    def with_sub(self, sel, v):
        return ACollV([("e", it[1], v) if it[0] == "e" and it[1] == sel[2] else it for it in self.items])

    def cloned(self, I):
        return self


# ------------------------------------------------------------- rest handling

def norm(I, items):
    """Expand rest markers this path has already refined."""
    ref = I.env.setdefault("rests", {})
    if not ref:
        return tuple(items)
    out = []
    for it in items:
        if it[0] == "r" and it[1] in ref:
            out += norm(I, [x(it) if callable(x) else x for x in ref[it[1]](it)])
        else:
            out.append(it)
    return tuple(out)


def deep(I, v):
    """A value with every refined rest expanded."""
    if isinstance(v, ATreeV):
        return ATreeV(v.kind, norm(I, v.items))
    if isinstance(v, ACollV):
        return ACollV([("e", it[1], deep(I, it[2])) if it[0] == "e" else it for it in norm(I, v.items)])
    if isinstance(v, Agg):
        return Agg(v.v, tuple(deep(I, x) for x in v.f), v.t)
    if isinstance(v, BoxV):
        return BoxV(deep(I, v.x))
    return v


def mid(lo, hi):
    from fractions import Fraction
    if isinstance(lo, tuple):
        if lo[0] == hi[0]:
            return (lo[0], Fraction(lo[1] + hi[1]) / 2)
        return (Fraction(lo[0] + hi[0]) / 2, 0)
    return Fraction(lo + hi) / 2


def materialise(I, rid, lo, hi, side):
    """Case split of a rest: empty, or its extreme element on `side` plus a rest.
    A rest id designates the same set of keys in a summary and in a collection."""
    ref = I.env.setdefault("rests", {})
    if rid in ref:
        return
    p = mid(lo, hi)
    n = rid + ("+",)
    vid = ("rv",) + rid
    c = I.choose(2, f"further keys in {'.'.join(map(str, rid))}")
    if c == 0:
        I.subst[("cnt", rid)] = 0
        ref[rid] = lambda it: []
        return

    I.subst[("cnt", rid)] = Lin(1, ((("cnt", n), 1),))

    def make(it):
        kind = it[4]
        key = Term((kind,) + (p if isinstance(p, tuple) else (p,)))
        a = ("r", n, lo, p, kind, it[5]) if side == "max" else ("r", n, p, hi, kind, it[5])
        if it[5] == "coll":
            v = ATreeV("child", [("e", term("lo", 0), term("val", vid)), ("r", n + ("in",), 0, 1 << 20, "lo", "val")])
        elif it[5] == "unit":
            v = UNIT
        else:
            v = term("val", vid)
        e = ("e", key, v)
        return [a, e] if side == "max" else [e, a]
    ref[rid] = make


def rest_count(it):
    return Lin(0, ((("cnt", it[1]), 1),))


def rest(rid, lo, hi, kind, payload):
    return ("r", rid if isinstance(rid, tuple) else (rid,), lo, hi, kind, payload)


def get_tree(I, r):
    v = I.full(r)
    if not isinstance(v, ATreeV):
        raise Undecided(f"not an abstract tree: {v!r}")
    v = ATreeV(v.kind, norm(I, v.items))
    return v


def extreme(I, items, side):
    """Items with the extreme one guaranteed an entry (or empty)."""
    while True:
        items = norm(I, items)
        if not items:
            return items, None
        it = items[-1] if side == "max" else items[0]
        if it[0] == "e":
            return items, it
        materialise(I, it[1], it[2], it[3], side)


def nonempty(I, items):
    items = norm(I, items)
    if any(i[0] == "e" for i in items):
        return True
    for it in items:
        materialise(I, it[1], it[2], it[3], "max")
    return bool(norm(I, items))


def is_single(I, items):
    """Exactly one entry (of a non-empty list)."""
    while True:
        items = norm(I, items)
        n = sum(1 for i in items if i[0] == "e")
        if n >= 2:
            return False
        rs = [i for i in items if i[0] == "r"]
        if not rs:
            return n == 1
        materialise(I, rs[0][1], rs[0][2], rs[0][3], "max")


def variant(I, path, name):
    key = ("variant", path, name)
    c = I.P.__dict__.setdefault("_vc", {})
    if key not in c:
        for t in I.P.types:
            # a type of the crate may live in any of its modules
            if "variants" in t and (t.get("path") == path or t.get("crate") == "veb_tree" and path.startswith("veb_tree::")
                                    and t["path"].split("::")[-1] == path.split("::")[-1]):
                for i, v in enumerate(t["variants"]):
                    if v["name"] == name:
                        c[key] = i
                break
        if key not in c:
            raise Undecided(f"no variant {name} of {path}")
    return c[key]


def mb_owned(I, k):
    return Agg(variant(I, "veb_tree::key::MaybeBorrowed", "Owned"), (k,))


def mb_borrowed(I, r):
    return Agg(variant(I, "veb_tree::key::MaybeBorrowed", "Borrowed"), (r,))


def mb_key(I, v):
    """The key a MaybeBorrowed denotes."""
    if isinstance(v, Agg) and v.v is not None:
        x = v.f[0]
        return I.full(x)
    raise Undecided(f"not a MaybeBorrowed: {v!r}")


def keyarg(I, a):
    """A query argument of any type borrowing a key."""
    v = I.full(a)
    if isinstance(v, Term):
        return v
    if isinstance(v, Agg):
        return mb_key(I, v)
    if isinstance(v, int):
        return v
    raise Undecided(f"query key {v!r}")


def place_of(I, ref):
    """Innermost reference designating the tree itself."""
    r = ref
    while True:
        v = I.deref(r)
        if isinstance(v, Ref):
            r = v
        else:
            return r


def entry_result(I, self_ref, it, owned=None):
    r = place_of(I, self_ref)
    v = I.deref(r)
    nv = ATreeV(v.kind, norm(I, v.items))
    if nv != v:
        I.store(r, nv)
    # keys come back owned or borrowed, depending on the implementation
    if I.env.get("owned", True):
        k = mb_owned(I, it[1])
    else:
        k = mb_borrowed(I, Ref(r.c, r.p + (("s", "key", it[1]),)))
    return tup(k, Ref(r.c, r.p + (("s", "val", it[1]),)))


def cost(I, who, method, c):
    I.events.append((who, method, c))


def locate(I, items, k):
    """Split items around key k: (below, entry|None, above)."""
    items = norm(I, items)
    below, eq, above = [], None, []
    for it in items:
        if it[0] == "e":
            o = order(it[1], k)
            if o < 0:
                below.append(it)
            elif o == 0:
                eq = it
            else:
                above.append(it)
        else:
            p = pos(k)
            if it[3] <= p:
                below.append(it)
            elif it[2] >= p:
                above.append(it)
            else:
                raise Undecided(f"key {k!r} falls inside a rest")
    return below, eq, above


# ------------------------------------------------------------- VebTree

def veb(name):
    return contract("VebTree::" + name)


@veb("from_monad")
def _(I, f, a):
    kind = {"ASum": "sum", "AChild": "child", "ATree": "tree"}[f["selfpath"].rsplit("::", 1)[-1]]
    return ATreeV(kind, [("e", a[0], a[1])])


@veb("is_monad")
def _(I, f, a):
    return boolv(is_single(I, get_tree(I, a[0]).items))


@veb("len_hint")
def _(I, f, a):
    h = I.env.get("len_hint")
    if h is not None:
        return h
    return tup(1, NONE)


@veb("into_monad")
def _(I, f, a):
    t = get_tree(I, a[0])
    if is_single(I, t.items):
        it = norm(I, t.items)
        e = entries(it)[0]
        return ok(tup(e[1], e[2]))
    return err(a[0])


def minmax(side):
    def g(I, f, a):
        t = get_tree(I, a[0])
        items, it = extreme(I, t.items, side)
        if it is None:
            raise Undecided("empty abstract tree")
        return entry_result(I, a[0], it)
    return g


for _n, _s in (("min_val", "min"), ("max_val", "max"), ("min_val_mut", "min"), ("max_val_mut", "max")):
    CON["VebTree::" + _n] = minmax(_s)


def find(I, f, a):
    t = get_tree(I, a[0])
    k = keyarg(I, a[1])
    _, eq, _ = locate(I, t.items, k)
    cost(I, t.kind, "find", 1)
    return NONE if eq is None else some(entry_result(I, a[0], eq))


CON["VebTree::find"] = CON["VebTree::find_mut"] = find


def neighbour(side):
    def g(I, f, a):
        t = get_tree(I, a[0])
        k = keyarg(I, a[1])
        below, _, above = locate(I, t.items, k)
        part = below if side == "pred" else above
        _, it = extreme(I, part, "max" if side == "pred" else "min")
        cost(I, t.kind, "predecessor" if side == "pred" else "successor", 0 if it is None else 1)
        return NONE if it is None else some(entry_result(I, a[0], it))
    return g


for _n, _s in (("predecessor", "pred"), ("predecessor_mut", "pred"), ("successor", "succ"), ("successor_mut", "succ")):
    CON["VebTree::" + _n] = neighbour(_s)


def tree_insert(I, t, k, v):
    below, eq, above = locate(I, t.items, k)
    old = None if eq is None else tup(eq[1], eq[2])
    return ATreeV(t.kind, below + [("e", k, v)] + above), old


@veb("insert")
def _(I, f, a):
    r = place_of(I, a[0])
    t = get_tree(I, a[0])
    nt, old = tree_insert(I, t, a[1], a[2])
    cost(I, t.kind, "insert", 1)
    I.store(r, nt)
    return NONE if old is None else some(old)


def take_out(I, t, it):
    items = [x for x in norm(I, t.items) if x != it]
    kv = tup(it[1], it[2])
    if not nonempty(I, items):
        return NONE, kv, True
    return some(ATreeV(t.kind, norm(I, items))), kv, False


@veb("remove")
def _(I, f, a):
    t = get_tree(I, a[0])
    k = keyarg(I, a[1])
    _, eq, _ = locate(I, t.items, k)
    if eq is None:
        cost(I, t.kind, "remove", 1)
        return err(a[0])
    nt, kv, last = take_out(I, t, eq)
    cost(I, t.kind, "remove", 0 if last else 1)
    return ok(tup(nt, kv))


def remove_end(side):
    def g(I, f, a):
        t = get_tree(I, a[0])
        items, it = extreme(I, t.items, side)
        nt, kv, last = take_out(I, ATreeV(t.kind, items), it)
        cost(I, t.kind, "remove_" + side, 0 if last else 1)
        return tup(nt, kv)
    return g


CON["VebTree::remove_min"] = remove_end("min")
CON["VebTree::remove_max"] = remove_end("max")

# ------------------------------------------------------------- TreeCollection


def get_coll(I, r):
    v = I.full(r)
    if not isinstance(v, ACollV):
        raise Undecided(f"not an abstract collection: {v!r}")
    return ACollV(norm(I, v.items))


@contract("TreeCollection::create")
def _(I, f, a):
    return ACollV([("e", I.full(a[0]), a[1])])


def coll_get(I, f, a):
    c = get_coll(I, a[0])
    h = keyarg(I, a[1])
    _, eq, _ = locate(I, c.items, h)
    if eq is None:
        return NONE
    r = place_of(I, a[0])
    if I.deref(r) != c:
        I.store(r, c)
    return some(Ref(r.c, r.p + (("s", "val", h),)))


CON["TreeCollection::get"] = CON["TreeCollection::get_mut"] = coll_get


@contract("TreeCollection::insert_key")
def _(I, f, a):
    r = place_of(I, a[0])
    c = get_coll(I, a[0])
    h = a[1]
    lo, v = a[2].f
    below, eq, above = locate(I, c.items, h)
    if eq is None:
        I.store(r, ACollV(below + [("e", h, ATreeV("child", [("e", lo, v)]))] + above))
        cost(I, "child", "insert", 0)
        return ok(h)
    nt, old = tree_insert(I, ATreeV("child", norm(I, eq[2].items)), lo, v)
    cost(I, "child", "insert", 1)
    I.store(r, ACollV(below + [("e", h, nt)] + above))
    return err(tup(h, NONE if old is None else some(old)))


def coll_take(I, c, h):
    items = []
    hit = None
    for it in norm(I, c.items):
        if it[0] == "e" and it[1] == h:
            hit = it
        else:
            items.append(it)
    return hit, items


def coll_finish(I, c, h, child, kv):
    if child == NONE:
        _, rest_ = coll_take(I, c, h)
        if not nonempty(I, rest_):
            return tup(NONE, kv)
        return tup(some(tup(ACollV(norm(I, rest_)), 1)), kv)
    nt = child.f[0]
    nc = ACollV([("e", h, nt) if it[0] == "e" and it[1] == h else it for it in norm(I, c.items)])
    return tup(some(tup(nc, 0)), kv)


@contract("TreeCollection::remove_key")
def _(I, f, a):
    c = get_coll(I, a[0])
    h = keyarg(I, a[1])
    hit, _ = coll_take(I, c, h)
    if hit is None:
        raise Panic("remove_key called for an absent subtree (documented to panic)", I.where, tuple(I.stack))
    res = I.call_value(a[2], [hit[2]])
    return coll_finish(I, c, h, res.f[0], res.f[1])


@contract("TreeCollection::maybe_remove_key")
def _(I, f, a):
    c = get_coll(I, a[0])
    h = keyarg(I, a[1])
    hit, _ = coll_take(I, c, h)
    if hit is None:
        return err(a[0])
    res = I.call_value(a[2], [hit[2]])
    if res.v == 1:
        nt = res.f[0]
        return err(ACollV([("e", h, nt) if it[0] == "e" and it[1] == h else it for it in norm(I, c.items)]))
    res = res.f[0]
    return ok(coll_finish(I, c, h, res.f[0], res.f[1]))


# ------------------------------------------------------------- keys

@contract("VebKey::split_val")
def _(I, f, a):
    k = I.full(a[0])
    return tup(term("hi", k[1]), term("lo", k[2]))


@contract("VebKey::join")
def _(I, f, a):
    h, l = mb_key(I, a[0]), mb_key(I, a[1])
    if h[0] != "hi" or l[0] != "lo":
        raise Undecided("join of foreign halves")
    return term("key", h[1], l[1])


@contract("VebKeyRef::split_ref")
def _(I, f, a):
    k = I.full(a[0])
    return I.call_value(a[1], [Ref(Cell(term("hi", k[1]), "hi")), Ref(Cell(term("lo", k[2]), "lo"))])


@contract("SizedVebKey::index")
def _(I, f, a):
    k = I.full(a[0])
    return I.env["index"](k)


@contract("Clone::clone")
def _(I, f, a):
    v = I.full(a[0])
    if isinstance(v, Term):
        return v
    return v


@contract("Ord::cmp")
def _(I, f, a):
    return ORD[order(I.full(a[0]), I.full(a[1]))]


@contract("PartialOrd::partial_cmp")
def _(I, f, a):
    return some(ORD[order(I.full(a[0]), I.full(a[1]))])


@contract("PartialEq::eq")
def _(I, f, a):
    return boolv(order(I.full(a[0]), I.full(a[1])) == 0)


def dispatch(I, f, a):
    """Contract of a function of the abs module, by the trait method it implements."""
    n = f["name"].split("::")
    g = CON.get("::".join(n[-2:]))
    if g is None:
        g = CON.get(n[-1])
    if g is None:
        raise Undecided(f"no contract for {f['name']}")
    I.used.add("::".join(n[-2:]))
    return g(I, f, a)


@contract("Default::default")
def _(I, f, a):
    """A hasher's state; nothing depends on which."""
    if not f.get("selfs", "").endswith("AHash"):
        raise Undecided("default of an abstract type")
    return UNIT


@contract("Hash::hash")
def _(I, f, a):
    """An opaque key feeds itself to the hasher."""
    h = I.deref(a[1])
    while isinstance(h, Ref):
        a = [a[0], h]
        h = I.deref(h)
    I.store(a[1], Term(("fed", h, I.full(a[0]))))
    return UNIT


@contract("Hasher::write")
def _(I, f, a):
    h = I.deref(a[0])
    I.store(a[0], Term(("fed", h, "bytes", repr(I.full(a[1])))))
    return UNIT
