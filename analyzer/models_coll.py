"""Contracts of the containers the crate stores its parts in: VecDeque, Vec and
boxed slices, GenericArray, hashbrown's HashMap, BTreeMap and their cursors."""
from domain import *
import contracts as C
import models_std
from contracts import ATreeV, ACollV, norm, locate, order, pos, variant, place_of
from models_std import NONE, some, ok, err, tup, boolv

STD = {}


def model(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


# ------------------------------------------------------------------ lists

class SymList(Opq):
    """A sequence: ('e', value) entries and ('r', name, length) runs of further
    elements whose length is an affine form."""
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind = kind
        self.items = tuple(i for i in items if not (i[0] == "r" and i[2] == 0))

    def canon(self):
        """Adjacent runs merged."""
        out = []
        for i in self.items:
            if i[0] == "r" and isinstance(i[1], tuple) and out and out[-1][0] == "r" and isinstance(out[-1][1], tuple):
                out[-1] = ("r", (i[1][0], out[-1][1][1] | i[1][1]), lin_add(out[-1][2], i[2]))
            else:
                out.append(i)
        return tuple(out)

    def __eq__(self, o):
        return isinstance(o, SymList) and (self.items == o.items or self.canon() == o.canon())

    def __hash__(self):
        return hash(self.canon())

    def __repr__(self):
        return "[" + ", ".join(repr(i[1]) if i[0] == "e" else f"…{i[2]!r}" if i[0] == "r" else f"{i[2]!r}@{i[1]!r}" for i in self.items) + "]"

    def length(self):
        n = 0
        for i in self.items:
            n = lin_add(n, 1 if i[0] in "e?" else i[2])
        return n

    def at(self, i):
        """(position, exact) of index i among the items; position len(items) is the end."""
        p = 0
        for j, it in enumerate(self.items):
            if lin_add(i, p, -1) == 0:
                return j
            p = lin_add(p, 1 if it[0] in "e?" else it[2])
        if lin_add(i, p, -1) == 0:
            return len(self.items)
        return None

    def sub(self, sel):
        if sel[0] == "i":
            j = self.at(sel[1])
            if j is not None and j < len(self.items) and self.items[j][0] == "e":
                return self.items[j][1]
            return self.unknown(sel[1])
        raise Undecided(f"place {sel} of a list")

    def unknown(self, i):
        v = term("val", ("at", i))
        return v if self.kind == "val" else ATreeV("child", [("e", term("lo", 0), v)])

    def with_sub(self, sel, v):
        if sel[0] == "i":
            j = self.at(sel[1])
            if j is not None and j < len(self.items) and self.items[j][0] == "e":
                return SymList(self.kind, self.items[:j] + (("e", v),) + self.items[j + 1:])
            if v == self.unknown(sel[1]):
                return self
            return SymList(self.kind, self.items + (("?", sel[1], v),))
        raise Undecided(f"place {sel} of a list")

    def insert(self, i, v):
        j = self.at(i)
        if j is None:
            return SymList(self.kind, self.items + (("?", i, v),))
        return SymList(self.kind, self.items[:j] + (("e", v),) + self.items[j:])

    def remove(self, i):
        j = self.at(i)
        if j is not None and j < len(self.items) and self.items[j][0] == "e":
            return SymList(self.kind, self.items[:j] + self.items[j + 1:]), self.items[j][1]
        return SymList(self.kind, self.items + (("?", i, None),)), self.unknown(i)

    def cloned(self, I):
        return self


def the_list(I, r):
    v = I.full(r)
    if not isinstance(v, SymList):
        raise Undecided(f"not a list: {v!r}")
    return v


def in_range(I, l, i, inclusive=False):
    """Is index i within the list (an exact answer: the lengths are independent
    quantities, so a form that can leave the range does so in some state)."""
    if not isinstance(i, (int, Lin)):
        raise Undecided(f"list index {i!r}")
    d = lin_add(l.length(), i, -1)
    lo, hi = I.int_bounds(I.nl(d))
    need = 0 if inclusive else 1
    return lo >= need


def oob(I, what, i, l):
    raise Panic(f"{what}: index {i!r} can be out of range of a list of {l.length()!r}", I.where, tuple(I.stack))


def elem(I, r, i):
    p = place_of(I, r)
    return Ref(p.c, p.p + (("i", i),))


def kind_of(I, f):
    for a in f["args"]:
        t = I.P.types[a]
        if t.get("path", "").endswith("AChild"):
            return "child"
    return "val"


@model("alloc::collections::vec_deque::VecDeque::new", "alloc::collections::vec_deque::VecDeque::with_capacity")
def _(I, f, a):
    return SymList(kind_of(I, f), [])


@model("alloc::collections::vec_deque::VecDeque::len")
def _(I, f, a):
    return I.nl(the_list(I, a[0]).length())


@model("alloc::collections::vec_deque::VecDeque::is_empty")
def _(I, f, a):
    return I.pred_int("Eq", I.nl(the_list(I, a[0]).length()), 0, 64, False)


@model("alloc::collections::vec_deque::VecDeque::insert")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1], True):
        oob(I, "VecDeque::insert", a[1], l)
    I.store(place_of(I, a[0]), l.insert(a[1], a[2]))
    return UNIT


@model("alloc::collections::vec_deque::VecDeque::push_back")
def _(I, f, a):
    l = the_list(I, a[0])
    I.store(place_of(I, a[0]), SymList(l.kind, l.items + (("e", a[1]),)))
    return UNIT


@model("alloc::collections::vec_deque::VecDeque::push_front")
def _(I, f, a):
    l = the_list(I, a[0])
    I.store(place_of(I, a[0]), SymList(l.kind, (("e", a[1]),) + l.items))
    return UNIT


def pop(end):
    def g(I, f, a):
        l = the_list(I, a[0])
        if I.pred_int("Eq", I.nl(l.length()), 0, 64, False):
            return NONE
        nl, v = l.remove(0 if end == "front" else lin_add(l.length(), -1))
        I.store(place_of(I, a[0]), nl)
        return some(v)
    return g


STD["alloc::collections::vec_deque::VecDeque::pop_front"] = pop("front")
STD["alloc::collections::vec_deque::VecDeque::pop_back"] = pop("back")


@model("alloc::collections::vec_deque::VecDeque::remove")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1]):
        if I.cmp_set(I.nl(a[1]), I.nl(l.length()), 64, False) <= {0, 1}:
            return NONE
        if I.pick(("rm", a[1], l.length()), {0, 1}, "index in range"):
            return NONE
    nl, v = l.remove(a[1])
    I.store(place_of(I, a[0]), nl)
    return some(v)


def swap_remove(end):
    def g(I, f, a):
        l = the_list(I, a[0])
        if not in_range(I, l, a[1]):
            if I.cmp_set(I.nl(a[1]), I.nl(l.length()), 64, False) <= {0, 1}:
                return NONE
            if I.pick(("rm", a[1], l.length()), {0, 1}, "index in range"):
                return NONE
        k = l.at(a[1])
        if k is None or l.items[k][0] != "e" or any(x[0] == "?" for x in l.items):
            raise Undecided("swap_remove inside an anonymous run")
        items = list(l.items)
        j = 0 if end == "front" else len(items) - 1
        x, last = items[k], items[j]
        if last[0] == "e":
            moved, rest = last, []
        else:
            # one element of the anonymous run at that end takes the place
            n = I.nl(lin_add(last[2], -1))
            moved = ("r", last[1] if n == 0 else f"end of {last[1]}", 1)
            rest = [] if n == 0 else [("r", f"{last[1]} but its end", n)]
        items[k] = moved
        items[j:j + 1] = rest
        I.store(place_of(I, a[0]), SymList(l.kind, items))
        return some(x[1])
    return g


STD["alloc::collections::vec_deque::VecDeque::swap_remove_front"] = swap_remove("front")
STD["alloc::collections::vec_deque::VecDeque::swap_remove_back"] = swap_remove("back")


@model("alloc::collections::vec_deque::VecDeque::clear")
def _(I, f, a):
    l = the_list(I, a[0])
    I.store(place_of(I, a[0]), SymList(l.kind, []))
    return UNIT


def cut(I, l, i, what):
    if not in_range(I, l, i, True):
        oob(I, what, i, l)
    j = l.at(i)
    if j is None:
        raise Undecided(f"{what} inside an anonymous run")
    return SymList(l.kind, l.items[:j]), SymList(l.kind, l.items[j:])


@model("alloc::collections::vec_deque::VecDeque::split_off")
def _(I, f, a):
    x, y = cut(I, the_list(I, a[0]), a[1], "VecDeque::split_off")
    I.store(place_of(I, a[0]), x)
    return y


@model("alloc::collections::vec_deque::VecDeque::truncate")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1], True):
        raise Undecided("truncate beyond the end")
    I.store(place_of(I, a[0]), cut(I, l, a[1], "VecDeque::truncate")[0])
    return UNIT


@model("alloc::collections::vec_deque::VecDeque::append")
def _(I, f, a):
    l, m = the_list(I, a[0]), the_list(I, a[1])
    I.store(place_of(I, a[0]), SymList(l.kind, l.items + m.items))
    I.store(place_of(I, a[1]), SymList(m.kind, []))
    return UNIT


def deque_get(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1]):
        if I.cmp_set(I.nl(a[1]), I.nl(l.length()), 64, False) <= {0, 1}:
            return NONE
        if I.pick(("rm", a[1], l.length()), {0, 1}, "index in range"):
            return NONE
    return some(elem(I, a[0], a[1]))


STD["alloc::collections::vec_deque::VecDeque::get"] = deque_get
STD["alloc::collections::vec_deque::VecDeque::get_mut"] = deque_get


@model("alloc::collections::vec_deque::VecDeque::front", "alloc::collections::vec_deque::VecDeque::front_mut")
def _(I, f, a):
    return deque_get(I, f, [a[0], 0])


@model("alloc::collections::vec_deque::VecDeque::back", "alloc::collections::vec_deque::VecDeque::back_mut")
def _(I, f, a):
    l = the_list(I, a[0])
    if I.pred_int("Eq", I.nl(l.length()), 0, 64, False):
        return NONE
    return some(elem(I, a[0], lin_add(l.length(), -1)))


@model("alloc::collections::vec_deque::VecDeque::swap")
def _(I, f, a):
    l = the_list(I, a[0])
    for i in a[1:]:
        if not in_range(I, l, i):
            oob(I, "VecDeque::swap", i, l)
    x, y = l.sub(("i", a[1])), l.sub(("i", a[2]))
    I.store(place_of(I, a[0]), l.with_sub(("i", a[1]), y).with_sub(("i", a[2]), x))
    return UNIT


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(I, f, a):
    v = I.full(a[0])
    if isinstance(v, SymList):
        if not in_range(I, v, a[1]):
            oob(I, "VecDeque index", a[1], v)
        return elem(I, a[0], a[1])
    if isinstance(v, SymArr) and isinstance(a[1], (int, Lin)):
        n = v.length()
        if I.int_bounds(lin_add(n, a[1], -1))[0] < 1:
            raise Panic(f"index {a[1]!r} can be out of range of an array of {n!r}", I.where, tuple(I.stack))
        return elem(I, a[0], a[1])
    return NotImplemented


@model("core::iter::traits::collect::FromIterator::from_iter", "core::convert::From::from")
def _(I, f, a):
    sp = f.get("selfpath", "")
    if sp.endswith("VecDeque"):
        v = a[0]
        if isinstance(v, Agg) and v.v is None:
            return SymList(kind_of(I, f), [("e", x) for x in v.f])
        raise Undecided("VecDeque built from an iterator")
    if sp.endswith("HashMap"):
        v = a[0]
        if isinstance(v, Agg) and v.v is None:
            c = ACollV([])
            for x in v.f:
                c = put(I, c, x.f[0], x.f[1])[0]
            return c
        if isinstance(v, Agg) and v.v == 1:
            return put(I, ACollV([]), v.f[0].f[0], v.f[0].f[1])[0]
        raise Undecided("HashMap built from an iterator")
    if sp.endswith("BTreeMap"):
        v = a[0]
        if isinstance(v, Agg) and v.v is None:
            c = ATreeV("btree", [])
            for x in v.f:
                c = C.tree_insert(I, c, x.f[0], x.f[1])[0]
            return c
    return NotImplemented


# ------------------------------------------------------------------ arrays

class SymArr(Opq):
    """An array of `n` slots: the named ones by index, every other one `rest`."""
    __slots__ = ("n", "named", "rest")

    def __init__(self, n, named, rest):
        self.n, self.rest = n, rest
        self.named = tuple(sorted(((i, v) for i, v in named if v != rest), key=lambda x: repr(x[0])))

    def __eq__(self, o):
        return isinstance(o, SymArr) and (self.n, self.named, self.rest) == (o.n, o.named, o.rest)

    def __hash__(self):
        return hash((self.n, self.named))

    def __repr__(self):
        return f"[{', '.join(f'{i!r}: {v!r}' for i, v in self.named)}; others {self.rest!r}]"

    def length(self):
        return self.n

    def sub(self, sel):
        if sel[0] == "i":
            for i, v in self.named:
                if i == sel[1]:
                    return v
            self.check(sel[1])
            return self.rest
        raise Undecided(f"place {sel} of an array")

    def check(self, i):
        """Distinct named keys have distinct indices; any other index is unknown."""
        if isinstance(i, int) and all(isinstance(j, int) for j, _ in self.named):
            return
        if isinstance(i, Lin) and i.c == 0 and len(i.ts) == 1 and i.ts[0][0][0] == "idx":
            if all(isinstance(j, Lin) and j.c == 0 and j.ts[0][0][0] == "idx" for j, _ in self.named):
                return
        if isinstance(self.rest, Agg) and not self.named:
            return
        raise Undecided(f"array index {i!r}")

    def with_sub(self, sel, v):
        if sel[0] == "i":
            if any(i == sel[1] for i, _ in self.named):
                return SymArr(self.n, [(i, v if i == sel[1] else x) for i, x in self.named], self.rest)
            self.check(sel[1])
            return SymArr(self.n, self.named + ((sel[1], v),), self.rest)
        raise Undecided(f"place {sel} of an array")


def idx(name):
    return Lin(0, ((("idx", name), 1),))


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def _(I, f, a):
    return SymArr(0, [], UNIT)


@model("alloc::vec::Vec::resize_with")
def _(I, f, a):
    v = I.full(a[0])
    if not isinstance(v, SymArr) or v.n != 0:
        raise Undecided("resize_with of a non-empty vector")
    d = I.call_value(a[2], [])
    I.store(place_of(I, a[0]), SymArr(a[1], [], d))
    return UNIT


@model("alloc::vec::Vec::resize")
def _(I, f, a):
    v = I.full(a[0])
    if not isinstance(v, SymArr) or v.n != 0:
        raise Undecided("resize of a non-empty vector")
    I.store(place_of(I, a[0]), SymArr(a[1], [], a[2]))
    return UNIT


@model("alloc::vec::Vec::push")
def _(I, f, a):
    v = I.full(a[0])
    if not isinstance(v, SymArr) or not isinstance(v.n, int):
        raise Undecided("push")
    if v.n == 0:
        nv = SymArr(1, [], a[1])
    else:
        nv = SymArr(v.n + 1, v.named + ((v.n, a[1]),), v.rest)
    I.store(place_of(I, a[0]), nv)
    return UNIT


@model("alloc::vec::Vec::len")
def _(I, f, a):
    return I.length(place_of(I, a[0]))


@model("alloc::vec::from_elem")
def _(I, f, a):
    return SymArr(a[1], [], a[0])


@model("alloc::vec::Vec::into_boxed_slice")
def _(I, f, a):
    return BoxV(a[0])


def typenum_value(s):
    """Value of a typenum unsigned type, from its printed form."""
    bits = []
    s = s.replace("typenum::", "").replace("uint::", "").replace("bit::", "").replace(" ", "")
    while s.startswith("UInt<"):
        s = s[5:-1]
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ">":
                depth += 1
            elif s[i] == "<":
                depth -= 1
            elif s[i] == "," and depth == 0:
                bits.append(int(s[i + 1:].strip()[1]))
                s = s[:i]
                break
        else:
            raise Undecided("typenum type")
    if s != "UTerm":
        raise Undecided(f"typenum type {s}")
    return sum(b << i for i, b in enumerate(bits))


@model("core::default::Default::default")
def _(I, f, a):
    sp = f.get("selfpath", "")
    if sp.endswith("GenericArray"):
        n = typenum_value(I.P.types[f["args"][1]]["s"])
        t = I.P.types[f["args"][0]]
        if not t.get("path", "").endswith("Option"):
            raise Undecided("default element")
        return SymArr(n, [], NONE)
    if f.get("selfs", "").startswith("std::option::Option"):
        return NONE
    return NotImplemented


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(I, f, a):
    sp = f.get("selfpath", "")
    if sp.endswith("GenericArray") or sp.endswith("::Vec"):
        return place_of(I, a[0])
    return models_std.box_view(I, f, a)


@model("generic_array::GenericArray::as_slice", "generic_array::GenericArray::as_mut_slice",
       "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice")
def _(I, f, a):
    return place_of(I, a[0])


@model("core::slice::{impl#0}::get", "core::slice::{impl#0}::get_mut", "core::slice::get", "core::slice::get_mut")
def _(I, f, a):
    v = I.full(a[0])
    if not isinstance(a[1], (int, Lin)) or not isinstance(v, (SymArr, Agg)):
        return NotImplemented
    n = I.length(place_of(I, a[0]))
    if I.pred_int("Lt", a[1], n, 64, False):
        return some(elem(I, a[0], a[1]))
    return NONE


# ------------------------------------------------------------------ maps

def count(I, items):
    n = 0
    for it in norm(I, items):
        n = lin_add(n, 1 if it[0] == "e" else C.rest_count(it))
    return I.nl(n)


def get_map(I, r):
    v = I.full(r)
    if isinstance(v, ACollV):
        return ACollV(norm(I, v.items))
    if isinstance(v, ATreeV):
        return ATreeV(v.kind, norm(I, v.items))
    raise Undecided(f"not a map: {v!r}")


def same(v, items):
    return ACollV(items) if isinstance(v, ACollV) else ATreeV(v.kind, items)


def put(I, c, k, v):
    below, eq, above = locate(I, c.items, k)
    return same(c, below + [("e", eq[1] if eq else k, v)] + above), eq


def lookup(I, r, k):
    c = get_map(I, r)
    _, eq, _ = locate(I, c.items, C.keyarg(I, k))
    p = place_of(I, r)
    if I.deref(p) != c:
        I.store(p, c)
    return p, c, eq


def val_ref(p, eq):
    return Ref(p.c, p.p + (("s", "val", eq[1]),))


def key_ref(p, eq):
    return Ref(p.c, p.p + (("s", "key", eq[1]),))


HM, BT = "hashbrown::map::HashMap::", "alloc::collections::btree::map::BTreeMap::"


@model(BT + "new", HM + "new", HM + "with_hasher", HM + "with_capacity_and_hasher", HM + "with_capacity")
def _(I, f, a):
    return ACollV([]) if f["name"].startswith("hash") else ATreeV("btree", [])


@model(BT + "len", HM + "len")
def _(I, f, a):
    items = get_map(I, a[0]).items
    # split the case until the count is known to be at least two or is exact
    while True:
        items = norm(I, items)
        rs = [i for i in items if i[0] == "r"]
        if not rs or len(items) - len(rs) >= 2:
            return count(I, items)
        C.materialise(I, rs[0][1], rs[0][2], rs[0][3], "max")


@model(BT + "is_empty", HM + "is_empty")
def _(I, f, a):
    return boolv(not C.nonempty(I, get_map(I, a[0]).items))


@model(BT + "insert", HM + "insert")
def _(I, f, a):
    p, c, eq = lookup(I, a[0], Ref(Cell(a[1])))
    nc, _ = put(I, c, a[1], a[2])
    I.store(p, nc)
    return NONE if eq is None else some(eq[2])


@model(BT + "get", HM + "get", BT + "get_mut", HM + "get_mut")
def _(I, f, a):
    p, c, eq = lookup(I, a[0], a[1])
    return NONE if eq is None else some(val_ref(p, eq))


@model(BT + "get_key_value", HM + "get_key_value", HM + "get_key_value_mut")
def _(I, f, a):
    p, c, eq = lookup(I, a[0], a[1])
    return NONE if eq is None else some(tup(key_ref(p, eq), val_ref(p, eq)))


@model(BT + "contains_key", HM + "contains_key")
def _(I, f, a):
    return boolv(lookup(I, a[0], a[1])[2] is not None)


def map_remove(entry):
    def g(I, f, a):
        p, c, eq = lookup(I, a[0], a[1])
        if eq is None:
            return NONE
        I.store(p, same(c, [x for x in c.items if x != eq]))
        return some(tup(eq[1], eq[2]) if entry else eq[2])
    return g


for _b in (BT, HM):
    STD[_b + "remove"] = map_remove(False)
    STD[_b + "remove_entry"] = map_remove(True)


def btree_end(side, popping):
    def g(I, f, a):
        c = get_map(I, a[0])
        p = place_of(I, a[0])
        items, it = C.extreme(I, c.items, side)
        if it is None:
            return NONE
        nc = same(c, items)
        if popping:
            I.store(p, same(c, [x for x in items if x != it]))
            return some(tup(it[1], it[2]))
        I.store(p, nc)
        return some(tup(key_ref(p, it), val_ref(p, it)))
    return g


STD[BT + "pop_first"] = btree_end("min", True)
STD[BT + "pop_last"] = btree_end("max", True)
STD[BT + "first_key_value"] = btree_end("min", False)
STD[BT + "last_key_value"] = btree_end("max", False)


class Cursor(Opq):
    """A B-tree iterator: the map, and the open/closed bounds of what is left."""
    __slots__ = ("ref", "lo", "hi", "mode")

    def __init__(self, ref, lo, hi, mode):
        self.ref, self.lo, self.hi, self.mode = ref, lo, hi, mode

    def inside(self, it):
        a, b = (pos(it[1]), pos(it[1])) if it[0] == "e" else (it[2], it[3])
        if self.lo is not None:
            p, inc = self.lo
            if it[0] == "e":
                if a < p or (a == p and not inc):
                    return False
            elif b <= p:
                return False
            elif a < p:
                raise Undecided("range bound inside an anonymous run")
        if self.hi is not None:
            p, inc = self.hi
            if it[0] == "e":
                if b > p or (b == p and not inc):
                    return False
            elif a >= p:
                return False
            elif b > p:
                raise Undecided("range bound inside an anonymous run")
        return True


def bound(I, b):
    if b.v == 2:
        return None
    return pos(C.keyarg(I, b.f[0])), b.v == 0


@model(BT + "range", BT + "range_mut")
def _(I, f, a):
    t = next((I.P.types[x] for x in f["args"] if "ops::" in I.P.types[x]["s"] or "Range" in I.P.types[x]["s"] or I.P.types[x]["k"] == "tuple"), None)
    r = a[1]
    s = t["s"] if t else ""
    key = lambda x: pos(C.keyarg(I, x))
    lo = hi = None
    if "RangeInclusive" in s:
        lo, hi = (key(r.f[0]), True), (key(r.f[1]), True)
    elif "RangeToInclusive" in s:
        hi = (key(r.f[0]), True)
    elif "RangeTo<" in s:
        hi = (key(r.f[0]), False)
    elif "RangeFrom" in s:
        lo = (key(r.f[0]), True)
    elif "RangeFull" in s:
        pass
    elif "Range<" in s:
        lo, hi = (key(r.f[0]), True), (key(r.f[1]), False)
    elif t and t["k"] == "tuple":
        lo, hi = bound(I, r.f[0]), bound(I, r.f[1])
    else:
        raise Undecided(f"range over {s}")
    if lo and hi and (lo[0] > hi[0] or (lo[0] == hi[0] and not lo[1] and not hi[1])):
        raise Panic("BTreeMap range start is greater than its end", I.where, tuple(I.stack))
    return Cursor(place_of(I, a[0]), lo, hi, "ref")


@model(BT + "iter", BT + "iter_mut")
def _(I, f, a):
    return Cursor(place_of(I, a[0]), None, None, "ref")


@model(BT + "keys")
def _(I, f, a):
    return Cursor(place_of(I, a[0]), None, None, "key")


@model(BT + "values", BT + "values_mut")
def _(I, f, a):
    return Cursor(place_of(I, a[0]), None, None, "val")


@model(BT + "into_keys")
def _(I, f, a):
    return Cursor(Ref(Cell(a[0], "map")), None, None, "own key")


@model(BT + "into_values")
def _(I, f, a):
    return Cursor(Ref(Cell(a[0], "map")), None, None, "own val")


@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(I, f, a):
    v = a[0]
    if isinstance(v, ATreeV):
        return Cursor(Ref(Cell(v, "map")), None, None, "own")
    if isinstance(v, Ref) and isinstance(I.full(v), ATreeV) and f.get("selfpath") == "ref":
        return Cursor(place_of(I, v), None, None, "ref")
    return NotImplemented


def advance(side):
    def g(I, f, a):
        c = I.deref(a[0]) if isinstance(a[0], Ref) else None
        if not isinstance(c, Cursor):
            return NotImplemented
        m = get_map(I, c.ref)
        items = norm(I, m.items)
        while True:
            ins = [it for it in items if c.inside(it)]
            if not ins:
                return NONE
            it = ins[-1] if side == "max" else ins[0]
            if it[0] == "e":
                break
            C.materialise(I, it[1], it[2], it[3], side)
            items = norm(I, items)
        I.store(c.ref, same(m, items))
        b = (pos(it[1]), False)
        I.store(a[0], Cursor(c.ref, c.lo if side == "max" else b, b if side == "max" else c.hi, c.mode))
        if c.mode.startswith("own"):
            return some({"own": tup(it[1], it[2]), "own key": it[1], "own val": it[2]}[c.mode])
        if c.mode == "key":
            return some(key_ref(c.ref, it))
        if c.mode == "val":
            return some(val_ref(c.ref, it))
        return some(tup(key_ref(c.ref, it), val_ref(c.ref, it)))
    return g


STD["core::iter::traits::iterator::Iterator::next"] = advance("min")
STD["core::iter::traits::double_ended::DoubleEndedIterator::next_back"] = advance("max")


@model("core::iter::traits::iterator::Iterator::last")
def _(I, f, a):
    if isinstance(a[0], Cursor):
        return advance("max")(I, f, [Ref(Cell(a[0]))])
    return NotImplemented


# --- hashbrown raw entries
RE = "hashbrown::raw_entry::"


@model(HM + "raw_entry_mut", HM + "raw_entry")
def _(I, f, a):
    return Agg(None, (place_of(I, a[0]),))


@model(RE + "RawEntryBuilderMut::from_key")
def _(I, f, a):
    ref = a[0].f[0]
    p, c, eq = lookup(I, ref, a[1])
    k = C.keyarg(I, a[1])
    return Agg(variant(I, RE + "RawEntryMut", "Occupied" if eq is not None else "Vacant"), (Agg(None, (ref, k)),))


def entry_at(I, x):
    e = I.full(x)
    ref, k = e.f
    p, c, eq = lookup(I, ref, Ref(Cell(k)))
    return p, c, eq, k


@model(RE + "RawOccupiedEntryMut::get_mut", RE + "RawOccupiedEntryMut::get", RE + "RawOccupiedEntryMut::into_mut")
def _(I, f, a):
    p, c, eq, k = entry_at(I, a[0])
    return val_ref(p, eq)


@model(RE + "RawOccupiedEntryMut::key")
def _(I, f, a):
    p, c, eq, k = entry_at(I, a[0])
    return key_ref(p, eq)


@model(RE + "RawOccupiedEntryMut::insert")
def _(I, f, a):
    p, c, eq, k = entry_at(I, a[0])
    I.store(p, put(I, c, k, a[1])[0])
    return eq[2]


def raw_remove(entry):
    def g(I, f, a):
        p, c, eq, k = entry_at(I, a[0])
        I.store(p, same(c, [x for x in c.items if x != eq]))
        return tup(eq[1], eq[2]) if entry else eq[2]
    return g


STD[RE + "RawOccupiedEntryMut::remove"] = raw_remove(False)
STD[RE + "RawOccupiedEntryMut::remove_entry"] = raw_remove(True)


@model(RE + "RawVacantEntryMut::insert")
def _(I, f, a):
    ref, k = a[0].f
    p, c, eq = lookup(I, ref, Ref(Cell(a[1])))
    nc, _ = put(I, c, a[1], a[2])
    I.store(p, nc)
    e = ("e", a[1], a[2])
    return tup(key_ref(p, e), val_ref(p, e))


@model(RE + "RawOccupiedEntryMut::replace_entry_with")
def _(I, f, a):
    p, c, eq, k = entry_at(I, a[0])
    r = I.call_value(a[1], [Ref(Cell(eq[1])), eq[2]])
    if r.v == 1:
        I.store(p, put(I, get_map(I, p), k, r.f[0])[0])
        return Agg(variant(I, RE + "RawEntryMut", "Occupied"), (Agg(None, (p, k)),))
    I.store(p, same(c, [x for x in c.items if x != eq]))
    return Agg(variant(I, RE + "RawEntryMut", "Vacant"), (Agg(None, (p, k)),))


# --- entries of hashbrown's and the standard maps
def entry_model(ty, occ, vac):
    def g(I, f, a):
        p, c, eq = lookup(I, a[0], Ref(Cell(a[1])))
        return Agg(variant(I, ty, "Occupied" if eq is not None else "Vacant"), (Agg(None, (p, a[1])),))

    def ref(I, f, a):
        p, c, eq, k = entry_at(I, a[0])
        return val_ref(p, eq)

    def okey(I, f, a):
        p, c, eq, k = entry_at(I, a[0])
        return key_ref(p, eq)

    def oinsert(I, f, a):
        p, c, eq, k = entry_at(I, a[0])
        I.store(p, put(I, c, k, a[1])[0])
        return eq[2]

    def vkey(I, f, a):
        return Ref(Cell(I.full(a[0]).f[1]))

    def into_key(I, f, a):
        return a[0].f[1]

    def vinsert(whole):
        def h(I, f, a):
            ref, k = a[0].f
            p, c, eq = lookup(I, ref, Ref(Cell(k)))
            I.store(p, put(I, c, k, a[1])[0])
            return Agg(None, (ref, k)) if whole else val_ref(p, ("e", k, a[1]))
        return h
    for m in ("get", "get_mut", "into_mut"):
        STD[occ + m] = ref
    STD[occ + "key"], STD[occ + "insert"] = okey, oinsert
    STD[occ + "remove"], STD[occ + "remove_entry"] = raw_remove(False), raw_remove(True)
    STD[vac + "key"], STD[vac + "into_key"] = vkey, into_key
    STD[vac + "insert"], STD[vac + "insert_entry"] = vinsert(False), vinsert(True)
    return g


HE, HR, BE = "hashbrown::map::", "hashbrown::rustc_entry::", "alloc::collections::btree::map::entry::"
STD[HM + "entry"] = entry_model(HE + "Entry", HE + "OccupiedEntry::", HE + "VacantEntry::")
STD[HM + "rustc_entry"] = entry_model(HR + "RustcEntry", HR + "RustcOccupiedEntry::", HR + "RustcVacantEntry::")
STD[BT + "entry"] = entry_model(BE + "Entry", BE + "OccupiedEntry::", BE + "VacantEntry::")


@model(HE + "OccupiedEntry::replace_entry_with")
def _(I, f, a):
    p, c, eq, k = entry_at(I, a[0])
    r = I.call_value(a[1], [Ref(Cell(eq[1])), eq[2]])
    if r.v == 1:
        I.store(p, put(I, get_map(I, p), k, r.f[0])[0])
        return Agg(variant(I, HE + "Entry", "Occupied"), (Agg(None, (p, k)),))
    I.store(p, same(c, [x for x in c.items if x != eq]))
    return Agg(variant(I, HE + "Entry", "Vacant"), (Agg(None, (p, k)),))


def btree_end_entry(side):
    def g(I, f, a):
        p = place_of(I, a[0])
        c = get_map(I, a[0])
        items, it = C.extreme(I, c.items, side)
        if it is None:
            return NONE
        I.store(p, same(c, items))
        return some(Agg(None, (p, it[1])))
    return g


STD[BT + "first_entry"] = btree_end_entry("min")
STD[BT + "last_entry"] = btree_end_entry("max")

# ------------------------------------------------- the crate's own list traits

def con(*names):
    def d(f):
        for n in names:
            C.CON[n] = f
        return f
    return d


@con("List::from_monad", "TreeList::from_monad")
def _(I, f, a):
    return SymList("child" if "ATreeList" in f["selfpath"] else "val", [("e", a[0])])


@con("List::len")
def _(I, f, a):
    return I.nl(the_list(I, a[0]).length())


@con("TreeList::len")
def _(I, f, a):
    return I.nl(the_list(I, a[0]).length())


@con("List::is_empty")
def _(I, f, a):
    return I.pred_int("Eq", I.nl(the_list(I, a[0]).length()), 0, 64, False)


@con("List::get", "List::get_mut", "TreeList::get", "TreeList::get_mut")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1]):
        oob(I, f["name"].rsplit("::", 1)[-1], a[1], l)
    return elem(I, a[0], a[1])


@con("List::insert_value", "TreeList::insert_tree")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1], True):
        oob(I, f["name"].rsplit("::", 1)[-1], a[1], l)
    I.store(place_of(I, a[0]), l.insert(a[1], a[2]))
    return UNIT


def removed(I, l):
    return I.pred_int("Eq", I.nl(l.length()), 0, 64, False)


@con("List::remove_value")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1]):
        oob(I, "remove_value", a[1], l)
    n = lin_add(l.length(), -1)
    nl, v = l.remove(a[1])
    if I.pred_int("Eq", I.nl(n), 0, 64, False):
        return tup(NONE, v)
    return tup(some(nl), v)


def list_finish(I, l, i, child, kv):
    if child == NONE:
        n = lin_add(l.length(), -1)
        nl, _ = l.remove(i)
        if I.pred_int("Eq", I.nl(n), 0, 64, False):
            return tup(NONE, kv)
        return tup(some(tup(nl, 1)), kv)
    return tup(some(tup(l.with_sub(("i", i), child.f[0]), 0)), kv)


@con("TreeList::remove_key")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1]):
        oob(I, "remove_key", a[1], l)
    r = I.call_value(a[2], [l.sub(("i", a[1]))])
    return list_finish(I, l, a[1], r.f[0], r.f[1])


@con("TreeList::maybe_remove_key")
def _(I, f, a):
    l = the_list(I, a[0])
    if not in_range(I, l, a[1]):
        oob(I, "maybe_remove_key", a[1], l)
    r = I.call_value(a[2], [l.sub(("i", a[1]))])
    if r.v == 1:
        return err(l.with_sub(("i", a[1]), r.f[0]))
    r = r.f[0]
    return ok(list_finish(I, l, a[1], r.f[0], r.f[1]))


REMOVED_KV = tup(term("lo", "out"), term("val", "out"))
LEFT = ATreeV("child", [("e", term("lo", 77), term("val", "left")), C.rest(("in", "left"), 77, 100, "lo", "val")])


@con("removal")
def _(I, f, a):
    """The caller's removal: takes the last entry of the subtree, or leaves one."""
    I.env.setdefault("removal_args", []).append(C.deep(I, a[0]))
    if I.choose(2, "the removal empties the subtree") == 0:
        return tup(some(LEFT), REMOVED_KV)
    return tup(NONE, REMOVED_KV)


@con("maybe_removal")
def _(I, f, a):
    I.env.setdefault("removal_args", []).append(C.deep(I, a[0]))
    c = I.choose(3, "the removal's outcome")
    if c == 2:
        return err(LEFT)
    return ok(tup(some(LEFT) if c == 0 else NONE, REMOVED_KV))


# ------------------------------------------------------------------ vec_entry

def field(I, ti, name):
    for i, (n, _) in enumerate(I.P.types[ti]["variants"][0]["fields"]):
        if n == name:
            return i
    raise Undecided(f"no field {name}")


@model("vec_entry::OccupiedEntry::replace_entry_with")
def _(I, f, a):
    """Replaces or takes out the element at the entry's index; a following
    element, if any, makes the entry occupied again."""
    e = I.full(a[0])
    if e.t is None:
        raise Undecided("entry")
    i, c = e.f[field(I, e.t, "index")], e.f[field(I, e.t, "container")]
    l = the_list(I, c)
    if not in_range(I, l, i):
        oob(I, "entry", i, l)
    r = I.call_value(a[1], [Ref(Cell(i, "index")), l.sub(("i", i))])
    l = the_list(I, c)
    V = "vec_entry::Entry"
    if r.f[0] != NONE:
        I.store(place_of(I, c), l.with_sub(("i", i), r.f[0].f[0]))
        return tup(Agg(variant(I, V, "Occupied"), (e,)), r.f[1])
    nl, _ = l.remove(i)
    I.store(place_of(I, c), nl)
    return tup(Agg(variant(I, V, "Occupied" if in_range(I, nl, i) else "Vacant"), (e,)), r.f[1])


# Allocation sizes are nothing the structures' behaviour may depend on: a capacity is an unknown
# number, so a branch on one is followed both ways, and reserving or shrinking changes no element.
VD, VE = "alloc::collections::vec_deque::VecDeque::", "alloc::vec::Vec::"


@model(*[o + "capacity" for o in (VD, VE, HM)])
def _(I, f, a):
    return TOP


@model(*[o + m for o in (VD, VE, HM) for m in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to")])
def _(I, f, a):
    return UNIT
