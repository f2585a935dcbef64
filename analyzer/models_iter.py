"""Iteration over arrays and slices of known length: the standard iterators walk
raw pointers or uninitialised arrays; here they are a sequence and two positions."""
import re

from domain import *
from contracts import norm, place_of
import models_coll
import models_std
from models_std import NONE, some, tup
from interp import Panic

STD = {}

IT = "core::iter::traits::iterator::Iterator::"
DE = "core::iter::traits::double_ended::DoubleEndedIterator::"
EX = "core::iter::traits::exact_size::ExactSizeIterator::"


class SeqIter(Opq):
    """Elements i..j of an array: the array itself, or a reference to it."""
    __slots__ = ("src", "i", "j")

    def __init__(self, src, i, j):
        self.src, self.i, self.j = src, i, j

    def __eq__(self, o):
        return isinstance(o, SeqIter) and (self.src, self.i, self.j) == (o.src, o.i, o.j)

    def __hash__(self):
        return hash((self.i, self.j))

    def at(self, k):
        if isinstance(self.src, Ref):
            return Ref(self.src.c, self.src.p + (("i", k),))
        return self.src.f[k]

    def rest(self):
        return [self.at(k) for k in range(self.i, self.j)]

    def cloned(self, I):
        return self


def known(name):
    return STD.get(name) or models_coll.STD.get(name) or models_std.STD.get(name)


def first(name):
    """Registers a model that is tried before the one already there."""
    def d(g):
        old = known(name)

        def h(I, f, a):
            r = g(I, f, a)
            if r is NotImplemented and old is not None:
                return old(I, f, a)
            return r
        STD[name] = h
        return g
    return d


def array_of(I, v):
    """The array value behind a (reference to an) array or slice, if its length is known."""
    x = I.full(v) if isinstance(v, Ref) else v
    return x if isinstance(x, Agg) and x.v is None else None


@first("core::iter::traits::collect::IntoIterator::into_iter")
def _(I, f, a):
    t = I.P.types[f["self"]] if "self" in f else None
    if t is None:
        return NotImplemented
    if t["k"] == "array" and isinstance(a[0], Agg):
        return SeqIter(a[0], 0, len(a[0].f))
    if t["k"] == "ref" and isinstance(a[0], Ref):
        x = array_of(I, a[0])
        if x is not None and (" " + t["s"].lstrip("&").removeprefix("mut ")).strip().startswith("["):
            return SeqIter(place_of(I, a[0]), 0, len(x.f))
    return NotImplemented


def slice_iter(I, f, a):
    x = array_of(I, a[0])
    if x is None:
        return NotImplemented
    return SeqIter(place_of(I, a[0]), 0, len(x.f))


for _n in ("slice::iter", "slice::iter_mut"):
    first(_n)(slice_iter)
for _n in ("slice::get", "slice::get_mut"):
    first(_n)(known("core::slice::get"))


# ------------------------------------------------------------ walks over containers

HM = models_coll.HM
VD = "alloc::collections::vec_deque::VecDeque::"
WALK_LIMIT = 32


def entries(I, v):
    """The entries of a hash map in an order chosen by the map."""
    items = norm(I, v.items)
    if any(i[0] == "r" for i in items) or len(items) > 4:
        raise Undecided("a walk over the entries of a hash map")
    out, left = [], list(items)
    while left:
        out.append(left.pop(I.choose(len(left), "order of a hash map")))
    return out


def hash_walk(give, owned=False):
    def g(I, f, a):
        p = Ref(Cell(a[0], "map")) if owned else place_of(I, a[0])
        c = models_coll.get_map(I, p)
        es = entries(I, c)
        I.store(p, models_coll.same(c, norm(I, c.items)))
        return SeqIter(Agg(None, tuple(give(p, e) for e in es)), 0, len(es))
    return g


PAIR = lambda p, e: tup(models_coll.key_ref(p, e), models_coll.val_ref(p, e))
OWN = lambda p, e: tup(e[1], e[2])
for _n, _g, _o in (("iter", PAIR, False), ("iter_mut", PAIR, False), ("keys", models_coll.key_ref, False), ("values", models_coll.val_ref, False),
                   ("values_mut", models_coll.val_ref, False), ("into_keys", lambda p, e: e[1], True), ("into_values", lambda p, e: e[2], True)):
    first(HM + _n)(hash_walk(_g, _o))


@first(HM + "drain")
def _(I, f, a):
    p = place_of(I, a[0])
    c = models_coll.get_map(I, p)
    es = entries(I, c)
    I.store(p, models_coll.same(c, []))
    return SeqIter(Agg(None, tuple(OWN(p, e) for e in es)), 0, len(es))


@first(HM + "retain")
def _(I, f, a):
    p = place_of(I, a[0])
    fn = Ref(Cell(a[1], "retain"))
    for e in entries(I, models_coll.get_map(I, p)):
        r = I.call_value(fn, [models_coll.key_ref(p, e), models_coll.val_ref(p, e)])
        if not (r if isinstance(r, int) else I.pick(("retain", r), {0, 1}, "retain")):
            c = models_coll.get_map(I, p)
            I.store(p, models_coll.same(c, [x for x in norm(I, c.items) if x[1] != e[1]]))
    return UNIT


@first("core::iter::traits::collect::IntoIterator::into_iter")
def _(I, f, a):
    sp = f.get("selfpath", "")
    s = I.P.types[f["self"]]["s"] if "self" in f else ""
    if sp.endswith("HashMap"):
        return hash_walk(OWN, True)(I, f, a)
    if sp.endswith("VecDeque") and isinstance(I.full(a[0]), models_coll.SymList):
        l = I.full(a[0])
        return ListIter(Ref(Cell(l, "list")), 0, l.length(), True)
    if sp == "ref" and isinstance(a[0], Ref):
        if "HashMap<" in s.split("<")[0] + "<":
            return hash_walk(PAIR)(I, f, a)
        if isinstance(I.full(a[0]), models_coll.SymList):
            return list_iter(I, f, a)
    return NotImplemented


class ListIter(Opq):
    """Positions i..j of a list."""
    __slots__ = ("ref", "i", "j", "own", "n")

    def __init__(self, ref, i, j, own=False, n=0):
        self.ref, self.i, self.j, self.own, self.n = ref, i, j, own, n

    def __eq__(self, o):
        return isinstance(o, ListIter) and (self.ref, self.i, self.j) == (o.ref, o.i, o.j)

    def __hash__(self):
        return hash((self.i, self.j))

    def cloned(self, I):
        return self


def list_iter(I, f, a):
    l = I.full(a[0])
    if not isinstance(l, models_coll.SymList):
        return NotImplemented
    return ListIter(place_of(I, a[0]), 0, l.length())


first(VD + "iter")(list_iter)
first(VD + "iter_mut")(list_iter)


def list_step(back, nth):
    def g(I, f, a):
        s = I.full(a[0]) if isinstance(a[0], Ref) else None
        if not isinstance(s, ListIter):
            return NotImplemented
        n = a[1] if nth else 0
        if not isinstance(n, (int, Lin)):
            raise Undecided("how far to step through a list")
        left = I.nl(lin_add(s.j, s.i, -1))
        if s.n > WALK_LIMIT:
            raise Undecided("a walk through a list")
        p = place_of(I, a[0])
        if not I.pred_int("Lt", I.nl(n), left, 64, False):
            I.store(p, ListIter(s.ref, s.j, s.j, s.own, s.n))
            return NONE
        if back:
            at = lin_add(lin_add(s.j, n, -1), -1)
            I.store(p, ListIter(s.ref, s.i, at, s.own, s.n + 1))
        else:
            at = lin_add(s.i, n)
            I.store(p, ListIter(s.ref, lin_add(at, 1), s.j, s.own, s.n + 1))
        r = Ref(s.ref.c, s.ref.p + (("i", at),))
        return some(I.full(r) if s.own else r)
    return g


first(IT + "next")(list_step(False, False))
first(DE + "next_back")(list_step(True, False))
first(IT + "nth")(list_step(False, True))
first(DE + "nth_back")(list_step(True, True))


def list_left(give):
    def g(I, f, a):
        s = I.full(a[0]) if isinstance(a[0], Ref) else a[0]
        if not isinstance(s, ListIter):
            return NotImplemented
        return give(I.nl(lin_add(s.j, s.i, -1)))
    return g


first(EX + "len")(list_left(lambda n: n))
first(IT + "count")(list_left(lambda n: n))
first(IT + "size_hint")(list_left(lambda n: tup(n, some(n))))


@first(IT + "last")
def _(I, f, a):
    return list_step(True, False)(I, f, [Ref(Cell(a[0], "iterator"))]) if isinstance(a[0], ListIter) else NotImplemented


# ------------------------------------------------------------ parts of slices

def part(I, r, i, j):
    """A reference to the elements i..j of an array or slice."""
    p = place_of(I, r)
    path = p.p
    if path and isinstance(path[-1], tuple) and path[-1][0] == "ss":
        i, j, path = path[-1][1] + i, path[-1][1] + j, path[:-1]
    return Ref(p.c, path + (("ss", i, j),))


def span(I, ti, v, n):
    """(start, end) of a range value over n elements, or None."""
    path = I.P.types[ti].get("path", "") if ti is not None else ""
    f = v.f if isinstance(v, Agg) else ()
    kind = path.rsplit("::", 1)[-1]
    if kind == "RangeFull":
        return 0, n
    if not f or not all(isinstance(x, int) for x in f[:2]):
        return None
    return {"Range": lambda: (f[0], f[1]), "RangeTo": lambda: (0, f[0]), "RangeFrom": lambda: (f[0], n),
            "RangeInclusive": lambda: (f[0], f[1] + 1), "RangeToInclusive": lambda: (0, f[0] + 1)}.get(kind, lambda: None)()


def ranged(checked):
    def g(I, f, a):
        x = array_of(I, a[1])
        if x is None or "self" not in f:
            return NotImplemented
        s = span(I, f["self"], a[0], len(x.f))
        if s is None:
            return NotImplemented
        if not s[0] <= s[1] <= len(x.f):
            if checked:
                return NONE
            raise Panic("range out of bounds of a slice", I.where, tuple(I.stack))
        r = part(I, a[1], *s)
        return some(r) if checked else r
    return g


for _n in ("index", "index_mut", "get", "get_mut"):
    first("core::slice::index::SliceIndex::" + _n)(ranged(_n.startswith("get")))


def split_at(checked):
    def g(I, f, a):
        x = array_of(I, a[0])
        if x is None or not isinstance(a[1], int):
            return NotImplemented
        if a[1] > len(x.f):
            if checked:
                return NONE
            raise Panic("split beyond the end of a slice", I.where, tuple(I.stack))
        r = tup(part(I, a[0], 0, a[1]), part(I, a[0], a[1], len(x.f)))
        return some(r) if checked else r
    return g


for _n in ("split_at", "split_at_mut", "split_at_unchecked", "split_at_mut_unchecked"):
    first("slice::" + _n)(split_at(False))
for _n in ("split_at_checked", "split_at_mut_checked"):
    first("slice::" + _n)(split_at(True))


@first("slice::swap")
def _(I, f, a):
    x = array_of(I, a[0])
    if x is None or not isinstance(a[1], int) or not isinstance(a[2], int):
        return NotImplemented
    if max(a[1], a[2]) >= len(x.f):
        raise Panic("index out of bounds", I.where, tuple(I.stack))
    p = place_of(I, a[0])
    u, v = x.f[a[1]], x.f[a[2]]
    I.store(Ref(p.c, p.p + (("i", a[1]),)), v)
    I.store(Ref(p.c, p.p + (("i", a[2]),)), u)
    return UNIT


def rearranged(g):
    def h(I, f, a):
        x = array_of(I, a[0])
        if x is None:
            return NotImplemented
        xs = g(I, list(x.f), *a[1:])
        if xs is None:
            return NotImplemented
        p = place_of(I, a[0])
        for i, v in enumerate(xs):
            I.store(Ref(p.c, p.p + (("i", i),)), v)
        return UNIT
    return h


def rotated(sign):
    def g(I, xs, n):
        if not isinstance(n, int):
            return None
        if n > len(xs):
            raise Panic("rotation by more than the length", I.where, tuple(I.stack))
        n = n if sign > 0 else len(xs) - n
        return xs[n:] + xs[:n]
    return g


def filled(I, xs, v):
    return [v] * len(xs) if isinstance(v, (int, Bits, Lin)) else None


def copied(I, xs, src):
    y = array_of(I, src)
    if y is None:
        return None
    if len(y.f) != len(xs):
        raise Panic("slices of different lengths", I.where, tuple(I.stack))
    return list(y.f)


first("slice::reverse")(rearranged(lambda I, xs: xs[::-1]))
first("slice::rotate_left")(rearranged(rotated(1)))
first("slice::rotate_right")(rearranged(rotated(-1)))
first("slice::fill")(rearranged(filled))
first("slice::copy_from_slice")(rearranged(copied))


def cur(I, r):
    v = I.full(r) if isinstance(r, Ref) else r
    return v if isinstance(v, SeqIter) else None


def step(side, ref):
    def g(I, f, a):
        s = cur(I, a[0])
        if s is None:
            return NotImplemented
        if s.i >= s.j:
            return NONE
        p = place_of(I, a[0])
        if side == "front":
            I.store(p, SeqIter(s.src, s.i + 1, s.j))
            return some(s.at(s.i))
        I.store(p, SeqIter(s.src, s.i, s.j - 1))
        return some(s.at(s.j - 1))
    return g


first(IT + "next")(step("front", None))
first(DE + "next_back")(step("back", None))


def jump(back, give):
    def g(I, f, a):
        s = cur(I, a[0])
        if s is None or not isinstance(a[1], int) or not isinstance(a[0], Ref):
            return NotImplemented
        n = a[1]
        m = min(n, s.j - s.i)
        s = SeqIter(s.src, s.i, s.j - m) if back else SeqIter(s.src, s.i + m, s.j)
        I.store(place_of(I, a[0]), s)
        if give:
            return step("back" if back else "front", None)(I, f, a)
        if m != n:
            raise Undecided("stepping past the end of a sequence")
        return Agg(0, (UNIT,))
    return g


for _k, _b, _g in ((IT + "nth", False, True), (DE + "nth_back", True, True),
                   (IT + "advance_by", False, False), (DE + "advance_back_by", True, False)):
    first(_k)(jump(_b, _g))


@first("core::slice::iter::Iter::as_slice")
def _(I, f, a):
    s = cur(I, a[0])
    if s is None or not isinstance(s.src, Ref):
        return NotImplemented
    return part(I, s.src, s.i, s.j)


@first(IT + "size_hint")
def _(I, f, a):
    s = cur(I, a[0])
    return NotImplemented if s is None else tup(s.j - s.i, some(s.j - s.i))


@first(EX + "len")
def _(I, f, a):
    s = cur(I, a[0])
    return NotImplemented if s is None else s.j - s.i


@first(IT + "count")
def _(I, f, a):
    s = cur(I, a[0])
    return NotImplemented if s is None else s.j - s.i


@first(IT + "last")
def _(I, f, a):
    s = cur(I, a[0])
    if s is None:
        return NotImplemented
    return some(s.at(s.j - 1)) if s.i < s.j else NONE


@first(IT + "__iterator_get_unchecked")
def _(I, f, a):
    s = cur(I, a[0])
    return NotImplemented if s is None or not isinstance(a[1], int) else s.at(s.i + a[1])


def folding(back):
    def g(I, f, a):
        s = cur(I, a[0])
        if s is None:
            return NotImplemented
        acc = a[1]
        fn = Ref(Cell(a[2], "fold"))
        for x in (s.rest()[::-1] if back else s.rest()):
            acc = I.call_value(fn, [acc, x])
        return acc
    return g


first(IT + "fold")(folding(False))
first(DE + "rfold")(folding(True))


def trying(back):
    def g(I, f, a):
        s = cur(I, a[0])
        if s is None or not isinstance(a[0], Ref):
            return NotImplemented
        ti = f["args"][-1]
        path = I.P.types[ti].get("path", "")
        on = next((v for end, v in (("ControlFlow", 0), ("Option", 1), ("Result", 0), ("NeverShortCircuit", None)) if path.endswith(end)), "?")
        if on == "?":
            return NotImplemented
        p = place_of(I, a[0])
        fn = Ref(Cell(a[2], "try_fold"))
        acc = a[1]
        while s.i < s.j:
            x = s.at(s.j - 1 if back else s.i)
            s = SeqIter(s.src, s.i, s.j - 1) if back else SeqIter(s.src, s.i + 1, s.j)
            I.store(p, s)
            r = I.call_value(fn, [acc, x])
            if not isinstance(r, Agg) or (on is not None and not isinstance(r.v, int)):
                raise Undecided("outcome of a fold")
            if on is not None and r.v != on:
                return r
            acc = r.f[0]
        return Agg(on, (acc,), ti)
    return g


first(IT + "try_fold")(trying(False))
first(DE + "try_rfold")(trying(True))


@first(IT + "for_each")
def _(I, f, a):
    s = cur(I, a[0])
    if s is None:
        return NotImplemented
    fn = Ref(Cell(a[1], "for_each"))
    for x in s.rest():
        I.call_value(fn, [x])
    return UNIT


def search(kind, back=False):
    def g(I, f, a):
        s = cur(I, a[0])
        if s is None or not isinstance(a[0], Ref):
            return NotImplemented
        p = place_of(I, a[0])
        fn = Ref(Cell(a[1], kind))
        n = 0
        while s.i < s.j:
            x = s.at(s.j - 1 if back else s.i)
            s = SeqIter(s.src, s.i, s.j - 1) if back else SeqIter(s.src, s.i + 1, s.j)
            I.store(p, s)
            arg = Ref(Cell(x, "item")) if kind in ("find", "rfind") else x
            r = I.call_value(fn, [arg])
            if kind == "find_map":
                if r != NONE:
                    return r
                continue
            hit = I.pick(("search", r), {0, 1}, kind) if not isinstance(r, int) else r
            if kind == "all":
                if not hit:
                    return 0
            elif hit:
                return {"any": 1, "find": some(x), "position": some(n), "rposition": some(s.j)}[kind]
            n += 1
        return {"all": 1, "any": 0}.get(kind, NONE)
    return g


for _k in ("all", "any", "find", "position", "find_map"):
    first(IT + _k)(search(_k))
first(DE + "rfind")(search("find", True))
first(IT + "rposition")(search("rposition", True))


@first("[T; N]::map")
@first("array::map")
def array_map(I, f, a):
    if not isinstance(a[0], Agg):
        return NotImplemented
    fn = Ref(Cell(a[1], "map"))
    return Agg(None, tuple(I.call_value(fn, [x]) for x in a[0].f))


@first("core::array::from_fn")
def _(I, f, a):
    m = re.search(r"[<,] ?(\d+)(?:_?usize)?[,>]", f.get("inst", ""))
    if m is None:
        return NotImplemented
    n = int(m.group(1))
    fn = Ref(Cell(a[0], "from_fn"))
    return Agg(None, tuple(I.call_value(fn, [i]) for i in range(n)))


FROM_ITER = "core::iter::traits::collect::FromIterator::from_iter"
INNER_FROM_ITER = known(FROM_ITER)


@first(FROM_ITER)
def _(I, f, a):
    """One-shot iterators: an array iterator, a `once` or an option."""
    if INNER_FROM_ITER is None:
        return NotImplemented
    v = a[0]
    xs = v.rest() if isinstance(v, SeqIter) else None
    s = I.P.types[f["args"][-1]]["s"] if f["args"] else ""
    if xs is None and ("Once<" in s or "option::" in s or "Option<" in s):
        while isinstance(v, Agg) and v.v is None and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, Agg) and v.v in (0, 1):
            xs = list(v.f)
    if xs is None:
        return NotImplemented
    return INNER_FROM_ITER(I, f, [Agg(None, tuple(xs))] + a[1:])


# ------------------------------------------------- library functions driving an iterator

DRAIN_LIMIT = 1024


class Same:
    """n copies of one element."""

    def __init__(self, n, x):
        self.n, self.x = n, x


def leaves(v, p=()):
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from leaves(x, p + (i,))
    else:
        yield p, v


def with_leaf(v, p, x):
    if not p:
        return x
    return Agg(v.v, v.f[:p[0]] + (with_leaf(v.f[p[0]], p[1:], x),) + v.f[p[0] + 1:], v.t)


def repeats(I, nxt, s0, e):
    """An iterator that counts one integer towards a bound and always yields
    the same element: shown by one step from an arbitrary point in between."""
    def step(s):
        c = Ref(Cell(s, "iterator"))
        r = I.call_fn(nxt, [c])
        return r, I.full(c)
    r, s1 = step(s0)
    a, b = dict(leaves(s0)), dict(leaves(s1))
    if set(a) != set(b):
        return None
    moved = [p for p in a if a[p] != b[p]]
    if len(moved) != 1 or not isinstance(a[moved[0]], int) or not isinstance(b[moved[0]], int):
        return None
    p = moved[0]
    n0, d = a[p], b[p] - a[p]
    if d not in (1, -1):
        return None
    for end in {x for q, x in a.items() if q != p and isinstance(x, int)} | {0}:
        if (end - n0) * d < 4:
            continue
        name = ("step", p)
        I.bounds[name] = (min(n0, end - d), max(n0, end - d))
        at, n = mklin(0, ((name, 1),)), len(I.imprecise)
        try:
            r, s2 = step(with_leaf(s0, p, at))
        except Undecided:
            continue
        if len(I.imprecise) > n:
            return None
        if r != Agg(1, (e,), r.t) or s2 != with_leaf(s0, p, lin_add(at, d)):
            continue
        r, _ = step(with_leaf(s0, p, end))
        if isinstance(r, Agg) and r.v == 0:
            return Same((end - n0) * d, e)
    return None


def drain(I, f, v, k=-1, uniform=False):
    """Every element an iterable yields, by running its own `next`."""
    if isinstance(v, SeqIter):
        return v.rest()
    if isinstance(v, Agg) and v.v is None and I.P.types[f["args"][k]]["k"] == "array":
        return list(v.f)
    its = f.get("iters")
    if not its or not its[k]:
        return None
    into, nxt = its[k]
    it = Ref(Cell(I.call_fn(into, [v]), "iterator"))
    out, begin = [], I.full(it)
    while True:
        if len(out) == 2 and uniform and out[0] == out[1]:
            u = repeats(I, nxt, begin, out[0])
            if u:
                return u
        r = I.call_fn(nxt, [it])
        if not isinstance(r, Agg) or r.v not in (0, 1):
            raise Undecided("element of an iterator")
        if r.v == 0:
            return out
        out.append(r.f[0])
        if len(out) > DRAIN_LIMIT:
            raise Undecided("long iterator")


def array_from(xs):
    if xs and all(x == xs[0] for x in xs):
        return models_coll.SymArr(len(xs), [], xs[0])
    return models_coll.SymArr(len(xs), list(enumerate(xs)), xs[0] if xs else UNIT)


@first(FROM_ITER)
def _(I, f, a):
    sp = f.get("selfpath", "")
    s = f.get("selfs", "")
    boxed = sp.endswith("boxed::Box") and "<[" in s
    if not boxed and not any(sp.endswith(x) for x in ("::Vec", "VecDeque", "HashMap", "BTreeMap")):
        return NotImplemented
    xs = drain(I, f, a[0], uniform=boxed or sp.endswith("::Vec"))
    if xs is None:
        return NotImplemented
    if isinstance(xs, Same):
        arr = models_coll.SymArr(xs.n, [], xs.x)
        return BoxV(arr) if boxed else arr
    if boxed:
        return BoxV(array_from(xs))
    if sp.endswith("::Vec"):
        return array_from(xs)
    return INNER_FROM_ITER(I, f, [Agg(None, tuple(xs))] + a[1:])


@first("core::iter::traits::collect::Extend::extend")
def _(I, f, a):
    sp = f.get("selfpath", "")
    if not any(sp.endswith(x) for x in ("VecDeque", "HashMap", "BTreeMap")):
        return NotImplemented
    xs = drain(I, f, a[1])
    if xs is None:
        return NotImplemented
    p = place_of(I, a[0])
    for x in xs:
        v = I.full(p)
        if sp.endswith("VecDeque"):
            models_coll.STD["alloc::collections::vec_deque::VecDeque::push_back"](I, f, [p, x])
        else:
            I.store(p, models_coll.put(I, models_coll.get_map(I, p), x.f[0], x.f[1])[0])
    return UNIT


@first("core::convert::From::from")
def _(I, f, a):
    sp = f.get("selfpath", "")
    if sp.endswith("boxed::Box") and "<[" not in f.get("selfs", "") and f["args"]:
        t = I.P.types[f["args"][-1]]
        if "<" + t["s"] in f.get("selfs", ""):
            return BoxV(a[0])
    return NotImplemented
