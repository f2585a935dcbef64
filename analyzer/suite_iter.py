"""The iterator, over an opaque tree.

Induction over the calls made so far.  A state is described by which ends have
been started (none, front, back, both), the last key given at each end, and how
many entries were given; it is represented by what the constructor and the first
calls of the current source build, with those keys and counts substituted.  Each
step (next / next_back) must give the right entry and lead to the representation
of the successor state; every state must give a correct size hint."""
from domain import *
import engine
from engine import Bad, root
from contracts import ATreeV, mb_key, norm, extreme
from models_std import NONE, some, tup
from suite_bytes import leaf_paths, rebuild
from suite_wrap import E, K, V, R, WRAPS, at_count, count, check_hint, Wrap

STEPS = {"F": "next", "B": "next_back"}
PROVIDED = ("nth", "nth_back", "last", "count", "fold", "rfold")
OPS = ("next", "next_back", "size_hint") + PROVIDED
HIST = ("", "F", "B", "FB", "BF")
BELOW = {"f": [E(10)], "x f": [E(5), E(10)], "x..f": [E(5), R(5, 10, "rf"), E(10)]}
ABOVE = {"b": [E(50)], "b x": [E(50), E(60)], "b..x": [E(50), R(50, 60, "rb"), E(60)]}
MID = {"none": [], "one": [E(20)], "two": [E(20), E(40)], "many": [E(20), R(20, 40, "mid"), E(40)]}
WHOLE = {"one": [E(20)], "two": [E(20), E(40)], "some": [E(20), R(20, 40, "mid")], "many": [E(20), R(20, 40, "mid"), E(40)]}


def subst(v, cells, keys, ints):
    """Replace the tree cell, key terms (also inside selectors) and the emitted count."""
    def go(x, p):
        if isinstance(x, Agg):
            return Agg(x.v, tuple(go(y, p + (i,)) for i, y in enumerate(x.f)), x.t)
        if isinstance(x, BoxV):
            return BoxV(go(x.x, p + ("*",)))
        if isinstance(x, Ref):
            if x.c in cells:
                return Ref(cells[x.c], sel(x.p), x.n)
            raise Undecided("the iterator refers to something other than the tree")
        if isinstance(x, Term):
            return keys[x]
        if isinstance(x, int) and p in ints:
            return ints[p]
        return x

    def sel(p):
        return tuple(("s", q[1], keys.get(q[2], q[2])) if isinstance(q, tuple) and q[0] == "s" else q for q in p)
    return go(v, ())


TREE = Cell(None, "tree")


class Iters:
    def __init__(self, prog, name, owned):
        self.prog, self.name, self.owned = prog, name, owned
        self.w = Wrap(prog, "sized") if name == "iter_sized" else None
        self.learn()

    # The numbers an iterator holds are learnt from samples: each is a constant, or
    # follows from how many entries were given and from the hint of the tree.
    KINDS = {
        "given": lambda e, lo, hi: e,
        "least left": lambda e, lo, hi: max(lo - e, 0),
        "most left": lambda e, lo, hi: None if hi is None else hi - e,
        "least": lambda e, lo, hi: lo,
        "most": lambda e, lo, hi: hi,
    }

    def sample(self, h, keys, hint):
        I = engine.new_run(self.prog, self.env(hint))
        t = Cell(self.tree(tuple(E(k) for k in keys)), "tree")
        c = Cell(root(I, self.name + ".from", Ref(t)), "iter")
        for s in h:
            root(I, f"{self.name}.{STEPS[s]}", Ref(c))
        return subst(c.x, {t: TREE}, {K(k): K(3) if k == keys[-1] else K(k) for k in keys}, {})

    def learn(self):
        self.T, self.num = {}, {}
        if self.w:
            samples = [((1, 2, 3), NONE, 3, 3), ((1, 2, 3, 4), NONE, 4, 4), ((1, 2, 3, 4, 5, 6), NONE, 6, 6)]
            groups = {True: samples}
        else:
            row = lambda lo, hi: ((1, 2, 3), tup(lo, NONE if hi is None else some(hi)), lo, hi)
            groups = {False: [row(1, None), row(100, None)], True: [row(1, 1000), row(100, 1000), row(7, 7)]}
        seen = {}
        for up, samples in groups.items():
            ints = {}
            for h in HIST:
                for i, (keys, hint, lo, hi) in enumerate(samples):
                    v = self.sample(h, keys, hint)
                    if i == 0:
                        self.T[h, up] = v
                    shape = rebuild(v, lambda p, x: 0 if isinstance(x, int) else x)
                    if seen.setdefault((h, up), shape) != shape:
                        raise Undecided("the shape of the iterator depends on the tree")
                    for p, x in leaf_paths(v):
                        if isinstance(x, int):
                            ints.setdefault(p, []).append((h, x, len(h), lo, hi))
            num = self.num[up] = {}
            for p, rows in ints.items():
                for k, f in self.KINDS.items():
                    if all(f(e, lo, hi) == x for _, x, e, lo, hi in rows):
                        num[p] = k
                        break
                else:
                    per = {}
                    for h, x, *_ in rows:
                        per.setdefault(h, set()).add(x)
                    if any(len(s) > 1 or not s <= {0, 1} for s in per.values()):
                        raise Undecided(f"a field of the iterator is not understood ({sorted(set().union(*per.values()))!r})")
        # does anything but the number of entries given matter?
        self.plain = all(k == "given" for num in self.num.values() for k in num.values()) and \
            (self.w is not None or all(seen[h, False] == seen[h, True] for h in HIST))

    def size_of(self, cell):
        size = [v for p, v in leaf_paths(cell.x) if isinstance(v, (int, Lin))]
        if len(size) != 1:
            raise Undecided("the size of the tree is not understood")
        return size[0]

    def tree(self, items):
        return self.w.state(items) if self.w else ATreeV("tree", items)

    def env(self, hint):
        return {"owned": self.owned, "len_hint": tup(1, NONE) if hint == NONE else hint}

    def state(self, I, h, cell, f, b, n):
        if self.w:
            up = True
        else:
            hint = I.env["len_hint"]
            up = hint.f[1] != NONE
        T = self.T[h, up]
        ints = {}
        for p, kind in self.num[up].items():
            if kind == "given":
                ints[p] = n
                continue
            if self.w:
                lo = hi = self.size_of(cell)
            else:
                lo, hi = hint.f[0], hint.f[1].f[0] if up else None
            v = lo if kind.startswith("least") else hi
            if kind.endswith("left"):
                s = I.cmp_set(v, n, 64, False)
                if s <= {0, 1}:
                    v = lin_add(v, n, -1)
                elif s <= {-1, 0} and kind == "least left":
                    v = 0
                else:
                    raise Undecided(f"is {v!r} more than {n!r}?")
            ints[p] = v
        keys = {}
        if h in ("F", "FB", "BF"):
            keys[K(1)] = f
        if h in ("B", "FB", "BF"):
            keys[K(3)] = b
        try:
            return subst(T, {TREE: cell}, keys, ints)
        except KeyError as e:
            raise Undecided(f"the iterator holds {e}")

    def states(self):
        """(description, history, below, mid, above)"""
        for n, c in WHOLE.items():
            yield f"fresh, {n}", "", (), tuple(c), ()
        for bn, b in BELOW.items():
            for mn, m in MID.items():
                yield f"front at f: {bn}, then {mn}", "F", tuple(b), tuple(m), ()
        for an, a in ABOVE.items():
            for mn, m in MID.items():
                yield f"back at b: {mn}, then {an}", "B", (), tuple(m), tuple(a)
        for h in ("FB", "BF"):
            for bn, b in BELOW.items():
                for mn, m in MID.items():
                    for an, a in ABOVE.items():
                        yield f"{h}: {bn}, {mn}, {an}", h, tuple(b), tuple(m), tuple(a)

    def build(self, I, h, below, mid, above, fix=False):
        cell = Cell(self.tree(below + mid + above), "tree")
        f = below[-1][1] if below else None
        b = above[0][1] if above else None
        n = lin_add(count(below), count(above))
        if fix:
            I.subst.update(I.env["fix"])
            n = I.nl(n)
            cell.x = rebuild(cell.x, lambda p, v: I.nl(v) if isinstance(v, Lin) else v)
        return cell, Cell(self.state(I, h, cell, f, b, n), "iter"), f, b, n

    def call(self, I, it, s):
        return root(I, f"{self.name}.{STEPS[s]}", Ref(it))

    def expect(self, I, r, want, what):
        if want is None:
            if r != NONE:
                raise Bad(f"{what} gave {mb_key(I, r.f[0].f[0])!r} although every entry was given")
            return
        if r == NONE:
            raise Bad(f"{what} gave nothing although {want[1]!r} was not given yet")
        gk, gv = mb_key(I, r.f[0].f[0]), I.full(r.f[0].f[1])
        if (gk, gv) != want[1:]:
            raise Bad(f"{what} gave {gk!r}:{gv!r} instead of {want[1]!r}:{want[2]!r}")

    def step(self, h, below, mid, above, s, desc):
        def body(I):
            cell, it, f, b, n = self.build(I, h, below, mid, above)
            what = f"{STEPS[s]} ({desc})"
            r = self.call(I, it, s)
            _, want = extreme(I, mid, "min" if s == "F" else "max")
            self.expect(I, r, want, what)
            if want is None:
                # exhausted: every later call gives nothing, and the state no longer changes
                seen = it.x
                for q in "FBFB":
                    self.expect(I, self.call(I, it, q), None, f"{STEPS[q]} after the end was reached by {what}")
                    if it.x == seen:
                        continue
                    seen = it.x
                if self.hint_of(I, it, 0, what, True):
                    pass
                return
            n2 = lin_add(n, 1)
            if s == "F":
                f2, b2, h2 = want[1], b, h if "F" in h else h + "F"
            else:
                f2, b2, h2 = f, want[1], h if "B" in h else h + "B"
            alts = [h2] if len(h2) < 2 else ["FB", "BF"]
            got = self.canon(I, it.x)
            for a in alts:
                if got == self.canon(I, self.state(I, a, cell, f2, b2, n2)):
                    return
            # not the expected representation: is the difference visible?
            left = [x for x in norm(I, mid) if x != want]
            self.drain(I, it, left, what)
            raise Undecided(f"{what}: the state reached is not the expected one")
        return body

    def canon(self, I, v):
        if isinstance(v, Agg):
            return Agg(v.v, tuple(self.canon(I, x) for x in v.f), v.t)
        if isinstance(v, BoxV):
            return BoxV(self.canon(I, v.x))
        return I.nl(v) if isinstance(v, Lin) else v

    def drain(self, I, it, left, what):
        if not all(x[0] == "e" for x in left):
            return
        start = it.x
        for order in ("F", "B", "FB", "BF"):
            it.x = start
            l = list(left)
            for i in range(len(left) + 2):
                s = order[i % len(order)]
                want = None if not l else (l.pop(0) if s == "F" else l.pop())
                self.expect(I, self.call(I, it, s), want, f"a later {STEPS[s]} after {what}")

    # ------------------------------------------------ provided methods
    def provided(self, op, h, below, mid, above, desc, n=None):
        """Methods with a provided body, which the crate could replace, do what
        the provided body would: here, in terms of the entries left."""
        def body(I):
            cell, it, f, b, g = self.build(I, h, below, mid, above)
            left = list(mid)
            what = f"{op}({'' if n is None else n}) ({desc})"
            pair = lambda x: None if x == NONE else (mb_key(I, x.f[0].f[0]), I.full(x.f[0].f[1]))
            if op == "count":
                r = root(I, f"{self.name}.count", it.x)
                if (I.nl(r) if isinstance(r, Lin) else r) != len(left):
                    raise Bad(f"{what} is {r!r} with {len(left)} entries left")
            elif op == "last":
                self.expect(I, root(I, f"{self.name}.last", it.x), left[-1] if left else None, what)
            elif op in ("fold", "rfold"):
                r = root(I, f"{self.name}.{op}", it.x)
                got = [pair(x) for x in r.f]
                want = [x[1:] for x in (left[::-1] if op == "fold" else left)]
                want += [None] * (4 - len(want))
                if got != want:
                    raise Bad(f"{what} visits {got[::-1]!r} instead of {want[::-1]!r}")
            else:
                r = root(I, f"{self.name}.{op}", Ref(it), n)
                order = left if op == "nth" else left[::-1]
                self.expect(I, r, order[n] if n < len(order) else None, what)
                rest = order[n + 1:]
                if op == "nth_back":
                    rest = rest[::-1]
                self.hint_of(I, it, len(rest), what)
                self.drain(I, it, rest, what)
        return body

    def provideds(self, ops):
        own = "owned" if self.owned else "borrowed"
        mids = {"none": [], "one": [E(20)], "two": [E(20), E(40)], "three": [E(20), E(30), E(40)]}
        for h in HIST:
            for mn, mid in mids.items():
                if not h and not mid:
                    continue
                below = tuple(BELOW["x f"]) if "F" in h else ()
                above = tuple(ABOVE["b x"]) if "B" in h else ()
                desc = f"{h or 'fresh'}, {mn}"
                for op in PROVIDED:
                    if op in ops:
                        for n in range(len(mid) + 4) if op.startswith("nth") else (None,):
                            at = "" if n is None else f" {n}"
                            total = len(below) + len(mid) + len(above)
                            yield (self.name, op, f"{desc}{at}; keys {own}", self.provided(op, h, below, tuple(mid), above, desc, n), None,
                                   self.env(tup(total, some(total))), None)

    # ------------------------------------------------------------ hints
    def hint_of(self, I, it, left, what, done=False):
        r = root(I, self.name + ".size_hint", Ref(it))
        lo, hi = r.f
        check_hint(I, lo, hi, left, what + ": size_hint")
        return True

    def hint(self, h, below, mid, above, desc, exact):
        def body(I):
            cell, it, f, b, n = self.build(I, h, below, mid, above)
            left = count(mid)
            what = f"size_hint ({desc})"
            before = it.x
            r = root(I, self.name + ".size_hint", Ref(it))
            left = I.nl(left)
            check_hint(I, r.f[0], r.f[1], left, what)
            if exact:
                for side, v in (("lower", r.f[0]), ("upper", r.f[1].f[0] if r.f[1] != NONE else None)):
                    v = I.nl(v) if isinstance(v, Lin) else v
                    if v is TOP:
                        raise Undecided("unknown size hint")
                    if v != left:
                        raise Bad(f"{what}: the {side} bound is {v!r} with exactly {left!r} entries left")
                m = root(I, "iter_sized_len", Ref(it))
                if (I.nl(m) if isinstance(m, Lin) else m) != left:
                    raise Bad(f"len ({desc}) is {m!r} with exactly {left!r} entries left")
            if it.x != before:
                raise Bad(f"{what} changes the iterator")
        return body

    def long(self, h, below, mid, above, s, desc):
        """The hint after one more entry, when so many were given already that a
        narrower counter would wrap."""
        def body(I):
            cell, it, f, b, n = self.build(I, h, below, mid, above, True)
            what = f"{STEPS[s]} ({desc})"
            _, want = extreme(I, mid, "min" if s == "F" else "max")
            self.expect(I, self.call(I, it, s), want, what)
            self.hint_of(I, it, lin_add(I.nl(count(mid)), -1), what)
        return body

    def hints(self, items):
        """Correct hints of the tree itself."""
        n = count(items)
        yield "exact", tup(n, some(n))
        yield "open", tup(1, NONE)
        if sum(1 for i in items if i[0] == "e") > 1:
            yield "two or more", tup(2, NONE)
        yield "upper only", tup(1, some(lin_add(n, sym("slack"))))
        if self.name == "iter":
            yield "no upper", tup(n, NONE)

    def obligations(self, ops):
        own = "owned" if self.owned else "borrowed"
        yield from self.provideds(ops)
        for desc, h, below, mid, above in self.states():
            total = below + mid + above
            for hn, v in [("", NONE)] + ([] if self.plain or self.w else [("; tree hint " + n, v) for n, v in self.hints(total)]):
                if "next" in ops:
                    yield self.name, "next", f"{desc}; keys {own}{hn}", self.step(h, below, mid, above, "F", desc), None, self.env(v), None
                if "next_back" in ops:
                    yield self.name, "next_back", f"{desc}; keys {own}{hn}", self.step(h, below, mid, above, "B", desc), None, self.env(v), None
            if "size_hint" in ops and h and mid == tuple(MID["two"]) and all(x in ((), tuple(BELOW["x..f"]), tuple(ABOVE["b..x"])) for x in (below, above)):
                for g in WRAPS:
                    env = self.env(tup(g + 2, some(g + 2)))
                    env["fix"] = at_count(below + above, g)["fix"]
                    for s in "FB":
                        yield (self.name, "size_hint", f"{desc}; keys {own}; {g} entries given, then {STEPS[s]}",
                               self.long(h, below, mid, above, s, desc), None, env, None)
            if "size_hint" in ops:
                for hn, v in self.hints(below + mid + above):
                    yield (self.name, "size_hint", f"{desc}; keys {own}; tree hint {hn}",
                           self.hint(h, below, mid, above, desc, self.name == "iter_sized"), None, self.env(v), None)
