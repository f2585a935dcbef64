"""The wrappers: SizedVebTree, Box and BTreeMap as van Emde Boas trees.

The wrapped tree is opaque (an ordered set of entries); each operation is
interpreted for every position of the query key relative to the contents."""
from domain import *
import engine
from engine import Bad, BadState, kept, root
from contracts import ATreeV, rest, rest_count, mb_key, deep, norm, extreme, is_single, locate
from models_std import NONE, some, tup
from suite_bytes import leaf_paths, rebuild

K = lambda n: term("key", n, 0)
V = lambda n: term("val", n)
E = lambda n: ("e", K(n), V(n))
R = lambda a, b, name: rest((name,), (a, 0), (b, 0), "key", "val")
FRESH = term("val", "fresh")

KOPS = ("find", "predecessor", "successor", "find_mut", "predecessor_mut", "successor_mut", "insert", "remove")
NOPS = ("min_val", "max_val", "min_val_mut", "max_val_mut", "is_monad", "len_hint", "into_monad", "remove_min", "remove_max", "len")
LOW = {"-": [], "1": [E(5)], "*": [E(0), R(0, 5, "lo"), E(5)]}
HIGH = {"-": [], "1": [E(15)], "*": [E(15), R(15, 20, "hi"), E(20)]}
ANY = {"one": [E(10)], "two": [E(5), E(15)], "many": [E(5), R(5, 15, "mid"), E(15)]}
KIND = {"sized": "tree", "boxed": "tree", "btree": "btree"}


def cases(op):
    if op in KOPS:
        for b, lo in LOW.items():
            for p in (0, 1):
                for a, hi in HIGH.items():
                    if lo or p or hi:
                        yield f"below {b}, key {'present' if p else 'absent'}, above {a}", tuple(lo + ([E(10)] if p else []) + hi)
    else:
        for n, c in ANY.items():
            yield n, tuple(c)


COUNTED = ("insert", "remove", "remove_min", "remove_max", "into_monad", "len", "len_hint")
WRAPS = tuple(x + d for x in (1 << 8, 1 << 16, 1 << 32) for d in (-1, 0))


def at_count(items, n):
    """Environment in which the contents are exactly n entries."""
    rs = [it for it in items if it[0] == "r"]
    c = count([it for it in items if it[0] == "e"])
    return {"fix": {("cnt", it[1]): (n - c - len(rs) + 1 if i == 0 else 1) for i, it in enumerate(rs)}}


def count(items):
    n = 0
    for it in items:
        n = lin_add(n, 1 if it[0] == "e" else rest_count(it))
    return n


class Wrap:
    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        I = engine.new_run(prog)
        t = root(I, name + ".from_monad", K(10), V(10))
        self.sample = t
        lv = dict(leaf_paths(t))
        self.tree = [p for p, v in lv.items() if isinstance(v, ATreeV)]
        cell = Cell(t, "tree")
        root(I, name + ".insert", Ref(cell), K(20), V(20))
        lv2 = dict(leaf_paths(cell.x))
        if set(lv) != set(lv2) or len(self.tree) != 1:
            raise Undecided("the wrapper changes shape")
        self.cnt = {p: v - 1 for p, v in lv.items() if isinstance(v, int)}
        if any(not isinstance(lv2[p], int) for p in self.cnt):
            raise Undecided("a stored count is not an integer")
        if name == "sized" and not self.cnt:
            raise Undecided("no stored count")
        if lv[self.tree[0]] != ATreeV(KIND[name], [E(10)]):
            raise BadState(f"from_monad builds {lv[self.tree[0]]!r}")

    def state(self, items):
        n = count(items)

        def leaf(p, v):
            if p == self.tree[0]:
                return ATreeV(KIND[self.name], items)
            if p in self.cnt:
                return lin_add(n, self.cnt[p])
            return v
        return rebuild(self.sample, leaf)

    def same(self, I, got, items, what):
        want = self.state(norm(I, items))
        a, b = dict(leaf_paths(deep(I, got))), dict(leaf_paths(want))
        if set(a) != set(b):
            raise Undecided(f"{what}: unexpected state {got!r}")
        for p in b:
            x, y = I.nl(a[p]) if isinstance(a[p], Lin) else a[p], I.nl(b[p]) if isinstance(b[p], Lin) else b[p]
            if x != y:
                if x is TOP:
                    raise Undecided(f"{what}: unknown state")
                raise BadState(f"{what} leaves {'the tree' if p == self.tree[0] else 'the count'} {x!r} instead of {y!r}")

    def body(self, op, items):
        k = K(10)
        name = self.name

        def f(I):
            I.subst.update(I.env.get("fix", {}))
            st = rebuild(self.state(items), lambda p, v: I.nl(v) if isinstance(v, Lin) else v)
            cell = Cell(st, "tree")
            kref = Ref(Cell(k, "k"))
            base, mut = (op[:-4], True) if op.endswith("_mut") else (op, False)
            what = f"{op} on {ATreeV(name, items)!r}"

            def go(*a):
                I.events = []
                r = root(I, f"{name}.{op}" if op != "len" else name + "_len", *a)
                # constant-time where the callers of this operation count on that
                b, eq, ab = parts() if op in KOPS else (items, None, ())
                free = (op not in KOPS and not op.startswith("remove")
                        or base == "predecessor" and not norm(I, b) or base == "successor" and not norm(I, ab)
                        or op == "remove" and eq is not None and is_single(I, items)
                        or op in ("remove_min", "remove_max") and is_single(I, items))
                engine.cost(I, what, I.events, 0 if free else 1)
                return r

            def parts():
                return locate(I, items, k)
            if base in ("find", "predecessor", "successor", "min_val", "max_val"):
                r = go(Ref(cell), kref) if op in KOPS else go(Ref(cell))
                b, eq, a = parts() if op in KOPS else (items, None, items)
                want = (eq if base == "find" else
                        extreme(I, b, "max")[1] if base in ("predecessor", "max_val") else extreme(I, a, "min")[1])
                if base in ("min_val", "max_val"):
                    r = some(r)
                cur = norm(I, items)
                if want is None:
                    if r != NONE:
                        raise Bad(f"{what} returned {mb_key(I, r.f[0].f[0])!r} instead of None")
                else:
                    if r == NONE:
                        raise Bad(f"{what} returned None instead of {want[1]!r}")
                    gk, gv = mb_key(I, r.f[0].f[0]), I.full(r.f[0].f[1])
                    if (gk, gv) != want[1:]:
                        raise Bad(f"{what} returned {gk!r}:{gv!r} instead of {want[1]!r}:{want[2]!r}")
                    if mut:
                        I.store(r.f[0].f[1], FRESH)
                        cur = [("e", it[1], FRESH) if it == want else it for it in cur]
                self.same(I, cell.x, cur, what + (" and a write through the result" if mut else ""))
            elif op == "is_monad":
                r = go(Ref(cell))
                if bool(r) != is_single(I, items):
                    raise Bad(f"{what} is {bool(r)}")
                self.same(I, cell.x, items, what)
            elif op == "len":
                r = go(Ref(cell))
                while isinstance(r, Agg) and len(r.f) == 1:
                    r = r.f[0]
                n = I.nl(count(norm(I, items)))
                if r is TOP:
                    raise Undecided("unknown length")
                if I.nl(r) != n:
                    raise Bad(f"{what} is {r!r} with {n!r} keys present")
            elif op == "len_hint":
                self.hint(I, items, go(Ref(cell)), what)
                self.same(I, cell.x, items, what)
            elif op == "into_monad":
                r = go(st)
                if is_single(I, items):
                    it = norm(I, items)[0]
                    if r.v != 0 or r.f[0] != Agg(None, it[1:]):
                        raise Bad(f"{what} returned {r!r}")
                else:
                    if r.v != 1:
                        raise Bad(f"{what} returned Ok with several keys present")
                    kept(self.same, I, r.f[0], items, what)
            elif op == "insert":
                r = go(Ref(cell), k, FRESH)
                b, eq, a = parts()
                want = NONE if eq is None else some(tup(eq[1], eq[2]))
                if r != want:
                    raise Bad(f"{what} returned {r!r} instead of {want!r}")
                self.same(I, cell.x, list(b) + [("e", k, FRESH)] + list(a), what)
            else:
                if op == "remove":
                    r = go(st, kref)
                    b, eq, a = parts()
                    if eq is None:
                        if r.v != 1:
                            raise Bad(f"{what} returned Ok for an absent key")
                        kept(self.same, I, r.f[0], items, what)
                        return
                    if r.v != 0:
                        raise Bad(f"{what} returned Err for a present key")
                    r, it = r.f[0], eq
                else:
                    r = go(st)
                    _, it = extreme(I, items, op[-3:])
                if r.f[1] != tup(it[1], it[2]):
                    raise Bad(f"{what} returned the entry {r.f[1]!r} instead of {it[1]!r}:{it[2]!r}")
                left = [x for x in norm(I, items) if x != it]
                if r.f[0] == NONE:
                    if any(x[0] == "e" for x in left):
                        raise BadState(f"{what} left no tree although keys remain")
                    if left:
                        raise Undecided("remainder not resolved")
                else:
                    if not left:
                        raise BadState(f"{what} left a tree although nothing remains")
                    self.same(I, r.f[0].f[0], left, what)
        return f

    def hint(self, I, items, r, what):
        lo, hi = r.f
        n = I.nl(count(norm(I, items)))
        check_hint(I, lo, hi, n, what)
        inner = I.env.get("len_hint")
        if self.name == "boxed" and inner is not None and r != inner:
            raise Bad(f"{what}: {r!r} although the boxed tree says {inner!r}")

    def obligations(self, ops):
        for op in ops:
            if op == "len" and self.name != "sized":
                continue
            for cn, items in cases(op):
                # keys may come back owned or borrowed from the wrapped tree
                for owned in (True, False):
                    env = {"owned": owned}
                    if op == "len_hint":
                        n = count(items)
                        for h, v in (("exact", tup(n, some(n))), ("open", tup(1, NONE)), ("loose", tup(1, some(lin_add(n, sym("slack")))))):
                            yield self.name, op, f"{cn}, inner hint {h}", self.body(op, items), None, dict(env, len_hint=v), None
                        break
                    yield self.name, op, f"{cn}, keys {'owned' if owned else 'borrowed'}", self.body(op, items), None, env, None
            # numbers of keys at which a narrower count would wrap
            if self.name != "sized" or op not in COUNTED:
                continue
            for cn, items in cases(op):
                if not any(it[0] == "r" and it[1] == (("lo",) if op in KOPS else ("mid",)) for it in items):
                    continue
                for n in WRAPS:
                    env = dict(at_count(items, n), len_hint=tup(n, some(n)))
                    yield self.name, op, f"{cn}, {n} keys", self.body(op, items), None, env, None


def check_hint(I, lo, hi, n, what):
    """lo <= n <= hi."""
    lo = I.nl(lo) if isinstance(lo, Lin) else lo
    if not isinstance(lo, (int, Lin)):
        raise Undecided("unknown lower bound")
    if 1 in I.cmp_set(lo, n, 64, False):
        raise Bad(f"{what}: the lower bound {lo!r} can exceed the {n!r} keys left")
    if hi != NONE:
        h = hi.f[0]
        h = I.nl(h) if isinstance(h, Lin) else h
        if not isinstance(h, (int, Lin)):
            raise Undecided("unknown upper bound")
        if -1 in I.cmp_set(h, n, 64, False):
            raise Bad(f"{what}: the upper bound {h!r} can be below the {n!r} keys left")
