"""The other collections of subtrees (hash table, dense arrays, boxed) and the
lists behind the byte map."""
from domain import *
import engine
from interp import Panic, Infeasible
from engine import Bad, BadState, root
from contracts import ATreeV, ACollV, rest, deep, norm
from models_std import NONE, some
from models_coll import SymList, SymArr, idx, REMOVED_KV, LEFT
from suite_bytes import (CHILD_K, CHILD_NEW, FRESH, child, check_get, check_insert,
                         check_remove, inserted, nonzero, leaf_paths, rebuild)

CARD = 1 << 32
FULL = tuple(x + d for x in (1 << 8, 1 << 16) for d in (-1, 0)) + (CARD - 1, CARD)
OTHERS = ("others",)


def same_state(I, got, want, what):
    got = I.full(got) if isinstance(got, Ref) else got
    g, w = deepx(I, got), deepx(I, want)
    if g == w:
        return
    a, b = dict(leaf_paths(g)), dict(leaf_paths(w))
    if set(a) == set(b):
        for p in b:
            if a[p] != b[p]:
                if isinstance(a[p], ACollV) and isinstance(b[p], ACollV):
                    raise BadState(f"{what}: the collection holds {a[p]!r} instead of {b[p]!r}")
                if isinstance(a[p], SymArr) and isinstance(b[p], SymArr) and a[p].rest == b[p].rest:
                    raise BadState(f"{what}: the array holds {a[p]!r} instead of {b[p]!r}")
                if isinstance(a[p], (int, Lin)) and isinstance(b[p], (int, Lin)):
                    raise BadState(f"{what}: a stored count is {a[p]!r} instead of {b[p]!r}")
    raise Undecided(f"{what}: unexpected state {g!r}")


def deepx(I, v):
    if isinstance(v, Agg):
        return Agg(v.v, tuple(deepx(I, x) for x in v.f), v.t)
    if isinstance(v, BoxV):
        return BoxV(deepx(I, v.x))
    if isinstance(v, SymArr):
        return SymArr(v.n, [(i, deepx(I, x)) for i, x in v.named], v.rest)
    if isinstance(v, (ATreeV, ACollV)):
        return deep(I, v)
    return I.nl(v) if isinstance(v, Lin) else v


class MapColl:
    """hashbrown::HashMap and Box<TC>: the state is an ordered set of subtrees."""

    def __init__(self, prog, name):
        self.name = name
        self.key = lambda k: term("hi", k)
        self.env = {}
        I = engine.new_run(prog)
        t = root(I, name + ".create", Ref(Cell(self.key(5))), child(5))
        self.sample = t
        if [x for _, x in leaf_paths(t)] != [ACollV([("e", self.key(5), child(5))])]:
            got = [x for _, x in leaf_paths(t)]
            if len(got) == 1 and isinstance(got[0], ACollV):
                raise BadState(f"create stores {got[0]!r}")
            raise Undecided(f"create gives {t!r}")

    def contents(self, here, g):
        it = [rest(("lo",), 0, 5, "hi", "coll")]
        if here:
            it.append(("e", self.key(5), here))
        if g:
            it += [rest(("mid",), 5, 10, "hi", "coll"), ("e", self.key(10), child(10)), rest(("hi",), 10, 100, "hi", "coll")]
        else:
            it.append(rest(("hi",), 5, 100, "hi", "coll"))
        return ACollV(it)

    def state(self, here, g, oth):
        c = self.contents(here, g)
        return rebuild(self.sample, lambda p, v: c)

    def gone(self, I, g, oth):
        c = self.contents(None, g)
        if not norm(I, c.items):
            return None
        return self.state(None, g, oth)

    def cases(self):
        for g in (0, 1):
            yield g, None, None

    def bounds(self, oth):
        return None


class ArrColl:
    """ArrayTreeCollection: slots by dense index, plus whatever count it keeps.
    The indices are unknown, or the two given."""

    def __init__(self, prog, name, at=None):
        self.name, self.at = name, at
        self.key = lambda k: term("idxkey", k)
        self.slot = idx if at is None else {5: at[0], 10: at[1]}.__getitem__
        self.env = {"index": lambda k: self.slot(k[1])}
        I = engine.new_run(prog, self.env, {"idx": (0, CARD - 1)})
        t = root(I, name + ".create", Ref(Cell(self.key(5))), child(5))
        self.created = t
        cell = Cell(t, "coll")
        root(I, name + ".insert_key", Ref(cell), self.key(10), Agg(None, (CHILD_K, FRESH)))
        a, b = dict(leaf_paths(t)), dict(leaf_paths(cell.x))
        if set(a) != set(b):
            raise Undecided("the collection changes shape")
        self.arr = [p for p, v in a.items() if isinstance(v, SymArr)]
        self.cnt = [p for p, v in a.items() if isinstance(v, int) and b[p] != v]
        self.off = [a[p] - 1 for p in self.cnt]
        if len(self.arr) != 1 or any(b[p] != a[p] + 1 for p in self.cnt):
            raise Undecided("unexpected fields")
        self.n = a[self.arr[0]].n

    def state(self, here, g, oth):
        total = lin_add((1 if here else 0) + (1 if g else 0), mklin(0, ((OTHERS, 1),)) if oth == 1 else oth)
        named = [(self.slot(5), some(here) if here else NONE), (self.slot(10), some(child(10)) if g else NONE)]

        def leaf(p, v):
            if p == self.arr[0]:
                return SymArr(self.n, named, term("slot"))
            if p in self.cnt:
                return lin_add(total, self.off[self.cnt.index(p)])
            return v
        return rebuild(self.created, leaf)

    def gone(self, I, g, oth):
        return self.state(None, g, oth) if g or oth else None

    def cases(self):
        for g in (0, 1):
            for oth in (0, 1):
                yield g, oth, None

    def bounds(self, oth):
        return {"idx": (0, CARD - 1), OTHERS: (1, CARD - 2)}


def build(prog, name):
    return Arrays(prog, name) if name in ("coll_array", "coll_garray") else MapColl(prog, name)


# pairs of indices that arithmetic in a narrower type would confuse
PAIRS = ((0, CARD - 1), (CARD - 1, 0), (5, 5 + (1 << 8)), (5 + (1 << 8), 5), (5, 5 + (1 << 16)), (5 + (1 << 16), 5),
         (127, 128), (1 << 31, (1 << 31) - 1), (0x01010005, 0x00010005))


class Arrays:
    """The dense arrays: unknown indices (which decides every pair as long as an
    index is only used, not computed with) and the pairs above."""

    def __init__(self, prog, name):
        self.name, self.forms = name, []
        for at in (None,) + PAIRS:
            try:
                self.forms.append((at, ArrColl(prog, name, at)))
            except (engine.Bad, Panic, Undecided, Infeasible) as e:
                self.forms.append((at, e))

    def obligations(self, ops):
        for at, c in self.forms:
            note = "" if at is None else f", indices {at[0]:#x} and {at[1]:#x}"
            if isinstance(c, Exception):
                def body(I, c=c):
                    raise c
                for op in ops:
                    yield self.name, op, "setup" + note, body, None, None, None
                continue
            for x in obligations(c, ops):
                yield x[:2] + (x[2] + note,) + x[3:]


def obligations(C, ops):
    """(suite, op, case, body, nonempty, env, bounds)"""
    if isinstance(C, Arrays):
        yield from C.obligations(ops)
        return
    k = C.key(5)
    for op in ops:
        if op == "create":
            yield (C.name, op, "single", history(C), None, C.env, C.bounds(0))
            continue
        for here in (0, 1):
            if op == "remove_key" and not here:
                continue
            for g, oth, _ in C.cases():
                if not here and not g and oth == 0:
                    continue
                for new in ((0, 1) if op == "insert_key" and here else (0,)):
                    nm = f"{'∈' if here else '∉'} other={g} more={oth}{' new' if new else ''}"
                    yield (C.name, op, nm, case(C, op, k, here, g, oth, new), None, C.env, C.bounds(oth))
                    if oth and isinstance(C, ArrColl) and C.at is None:
                        # numbers of keys at which a narrower count would wrap
                        for n in FULL:
                            if n < CARD or here and g:
                                yield (C.name, op, f"{nm}, {n} keys", case(C, op, k, here, g, n - here - g, new), None, C.env, C.bounds(oth))


def case(C, op, k, here, g, oth, new):
    ch = child(5) if here else None
    what = f"{op} of a key {'present' if here else 'absent'}{', another named key present' if g else ''}{', further keys present' if oth else ''}"

    def body(I):
        st = C.state(ch, g, oth)
        if op in ("get", "get_mut"):
            cell = Cell(st, "coll")
            r = root(I, f"{C.name}.{op}", Ref(cell), Ref(Cell(k)))
            engine.cost(I, what, I.events, 0)
            check_get(I, r, ch and deep(I, ch), what)
            if here and op == "get_mut":
                I.store(r.f[0], LEFT)
                same_state(I, cell.x, C.state(LEFT, g, oth), f"writing through {what}")
            else:
                same_state(I, cell.x, st, what)
        elif op == "insert_key":
            lo = CHILD_NEW if new else CHILD_K
            cell = Cell(st, "coll")
            r = root(I, f"{C.name}.insert_key", Ref(cell), k, Agg(None, (lo, FRESH)))
            engine.cost(I, what, I.events, 1 if here else 0)
            check_insert(I, r, k, here, child(5), lo, what)
            same_state(I, cell.x, C.state(inserted(ch, lo), g, oth), what)
        else:
            r = root(I, f"{C.name}.{op}", st, Ref(Cell(k)))
            engine.cost(I, what, I.events, 0)
            check_remove(I, r, op, ch and deep(I, ch), C.gone(I, g, oth), C.state(LEFT, g, oth), st, what, same_state)
    return body


def history(C):
    """create, then insert a second key, then take both out again."""
    a, b = C.key(5), C.key(10)

    def body(I):
        t = root(I, C.name + ".create", Ref(Cell(a)), child(5))
        cell = Cell(t, "coll")
        check_get(I, root(I, C.name + ".get", Ref(cell), Ref(Cell(a))), child(5), "get after create")
        check_get(I, root(I, C.name + ".get", Ref(cell), Ref(Cell(b))), None, "get of another key after create")
        r = root(I, C.name + ".insert_key", Ref(cell), b, Agg(None, (CHILD_K, FRESH)))
        check_insert(I, r, b, 0, None, CHILD_K, "insert_key of a second key")
        check_get(I, root(I, C.name + ".get", Ref(cell), Ref(Cell(a))), child(5), "get of the first key")
        check_get(I, root(I, C.name + ".get", Ref(cell), Ref(Cell(b))), inserted(None, CHILD_K), "get of the second key")
        st = cell.x
        for i, (k, ch) in enumerate(((a, child(5)), (b, inserted(None, CHILD_K)))):
            I.env["removal_args"] = []
            n = len(I.trace)
            r = root(I, C.name + ".remove_key", st, Ref(Cell(k)))
            out = [v for v, _, lab, _ in I.trace[n:] if "removal" in lab]
            if I.env["removal_args"] != [ch]:
                raise Bad(f"create, insert, remove_key ran the removal on {I.env['removal_args']!r} instead of {ch!r}")
            if r.f[1] != REMOVED_KV:
                raise Bad("remove_key lost the removed entry")
            if out != [1]:
                if r.f[0] == NONE or r.f[0].f[0].f[1]:
                    raise Bad("remove_key reports the key as gone although its subtree still has entries")
                return
            if i == 0:
                if r.f[0] == NONE or not r.f[0].f[0].f[1]:
                    raise Bad("after removing the first of two keys the collection is gone or the removal unreported")
                st = r.f[0].f[0].f[0]
                check_get(I, root(I, C.name + ".get", Ref(Cell(st)), Ref(Cell(a))), None, "get of a removed key")
            elif r.f[0] != NONE:
                raise Bad("a collection remains after its last key was removed")
    return body


COLL_OPS = ("create", "get", "get_mut", "insert_key", "remove_key", "maybe_remove_key")

# ------------------------------------------------------------------ lists

X = term("val", "x")


class Lists:
    def __init__(self, prog, name):
        self.name = name
        self.kind = "child" if name == "list_tree" else "val"
        self.x = child(1) if self.kind == "child" else X
        self.y = child(2) if self.kind == "child" else FRESH

    def n(self, side, k):
        """How many elements: a name's worth (True) or exactly k."""
        return mklin(0, (((side,), 1),)) if k is True else k

    def st(self, fr, bk, mid):
        it = []
        if fr:
            it.append(("r", "front", self.n("front", fr)))
        it += [("e", m) for m in mid]
        if bk:
            it.append(("r", "back", self.n("back", bk)))
        return SymList(self.kind, it)

    def obligations(self, ops):
        bounds = {"front": (1, 1 << 40), "back": (1, 1 << 40)}
        for op in ops:
            if op == "from_monad":
                yield (self.name, op, "single", self.single(), None, None, bounds)
                continue
            if op == "is_empty":
                yield (self.name, op, "empty", self.empty(), None, None, bounds)
            for fr in (False, True):
                for bk in (False, True):
                    yield (self.name, op, f"{fr + 0}x{bk + 0}", self.case(op, fr, bk), None, None, bounds)
            # lengths and positions at which a narrower count would wrap round
            for w in (1 << 7, 1 << 8, 1 << 16, 1 << 32):
                for fr, bk in ((w - 2, 1), (w - 1, 0), (w - 1, 1), (w, 0), (w, 1), (w + 1, 0), (0, w - 2), (0, w - 1), (1, w - 1), (0, w), (1, w), (w, w)):
                    yield (self.name, op, f"{fr} and {bk}", self.case(op, fr, bk), None, None, bounds)

    def single(self):
        def body(I):
            r = root(I, self.name + ".from_monad", self.x)
            if r != SymList(self.kind, [("e", self.x)]):
                raise Bad(f"from_monad gives {r!r}")
        return body

    def empty(self):
        def body(I):
            r = root(I, self.name + ".is_empty", Ref(Cell(SymList(self.kind, []))))
            if not r:
                raise Bad("is_empty of an empty list is false")
        return body

    def case(self, op, fr, bk):
        some = lambda k: "elements" if k is True else f"{k} elements" if k else "nothing"
        what = f"{op} on a list with {some(fr)} before and {some(bk)} after the index"
        i = self.n("front", fr) if fr else 0
        total = lin_add(lin_add(i, 1), self.n("back", bk) if bk else 0)

        def same(I, got, want, w):
            if isinstance(got, Ref):
                got = I.full(got)
            if got != want:
                if isinstance(got, SymList):
                    raise Bad(f"{w}: the list is {got!r} instead of {want!r}")
                raise Undecided(f"{w}: {got!r}")

        def body(I):
            st = self.st(fr, bk, [self.x])
            cell = Cell(st, "list")
            R = Ref(cell)
            if op == "len":
                nonzero(I, root(I, self.name + ".len", R), total, what)
            elif op == "is_empty":
                if root(I, self.name + ".is_empty", R):
                    raise Bad(f"{what} is true")
            elif op in ("get", "get_mut"):
                r = root(I, f"{self.name}.{op}", R, i)
                if I.full(r) != self.x:
                    raise Bad(f"{what} designates {I.full(r)!r} instead of {self.x!r}")
                if op == "get_mut":
                    I.store(r, self.y)
                    same(I, cell.x, self.st(fr, bk, [self.y]), f"writing through {what}")
            elif op in ("insert_tree", "insert_value"):
                root(I, f"{self.name}.{op}", R, i, self.y)
                same(I, cell.x, self.st(fr, bk, [self.y, self.x]), what)
                # and at the end of the list
                cell2 = Cell(st, "list")
                root(I, f"{self.name}.{op}", Ref(cell2), total, self.y)
                want = SymList(self.kind, st.items + (("e", self.y),))
                same(I, cell2.x, want, f"{what} (appending)")
            elif op == "remove_value":
                r = root(I, f"{self.name}.{op}", st, i)
                if r.f[1] != self.x:
                    raise Bad(f"{what} returned {r.f[1]!r} instead of {self.x!r}")
                if not fr and not bk:
                    if r.f[0] != NONE:
                        raise Bad(f"{what} left a list although it is empty")
                elif r.f[0] == NONE:
                    raise Bad(f"{what} left no list although elements remain")
                else:
                    same(I, r.f[0].f[0], self.st(fr, bk, []), what)
            else:
                r = root(I, f"{self.name}.{op}", st, i)
                engine.cost(I, what, I.events, 0)
                gone = self.st(fr, bk, []) if fr or bk else None
                check_remove(I, r, op, self.x, gone, self.st(fr, bk, [LEFT]), st, what, same)
        return body


LIST_OPS = {"list_tree": ("from_monad", "len", "get", "get_mut", "insert_tree", "remove_key", "maybe_remove_key"),
            "list_val": ("from_monad", "len", "is_empty", "get", "get_mut", "insert_value", "remove_value")}
