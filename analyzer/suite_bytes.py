"""The byte-indexed structures: `ByteSet`, `ByteMap<L>` as a tree and as a
collection.

A case says of each of the 256 keys: present, absent or unknown, plus at most
one fact "some key of this group is present".  Landmark partitions (the nearest
present key on the side an operation looks at) cover every non-empty set.  The
bit that stands for a key is read off `from_monad` / `create`."""
from domain import *
import engine
from engine import Bad, BadState, kept, root
from contracts import ATreeV, mb_key, deep, get_tree
from models_std import NONE, some
from models_coll import SymList, REMOVED_KV, LEFT

ALL = (1 << 256) - 1


def leaf_paths(v, p=()):
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from leaf_paths(x, p + (i,))
    elif isinstance(v, BoxV):
        yield from leaf_paths(v.x, p + ("*",))
    else:
        yield p, v


def rebuild(v, fn, p=()):
    if isinstance(v, Agg):
        return Agg(v.v, tuple(rebuild(x, fn, p + (i,)) for i, x in enumerate(v.f)), v.t)
    if isinstance(v, BoxV):
        return BoxV(rebuild(v.x, fn, p + ("*",)))
    return fn(p, v)


class Layout:
    """Which bit of which word stands for each key."""

    # Besides the words a structure may hold numbers that follow from the keys.
    KINDS = {
        "count": lambda s: bin(s).count("1"),
        "count - 1": lambda s: bin(s).count("1") - 1,
        "least": lambda s: (s & -s).bit_length() - 1,
        "largest": lambda s: s.bit_length() - 1,
        "one key": lambda s: int(s & (s - 1) == 0),
        "more keys": lambda s: int(s & (s - 1) != 0),
    }
    MORE = ((5, 9), (9, 5), (100, 200), (200, 100), (0, 255), (255, 0), (127, 128), (128, 127), (3, 70, 131), (220, 64, 1), (40, 41, 42, 43), (250, 190, 130, 60))

    def numbers(self, prog, make, grow, words):
        """Which leaves are such numbers, and of which kind."""
        self.num, self.observer = {}, None
        cand = {}
        for p in self.paths:
            vs = [words[k][p] for k in range(256)]
            if all(isinstance(v, int) for v in vs) and (len(set(vs)) == 1 or any(v & (v - 1) for v in vs)):
                kinds = [n for n, f in self.KINDS.items() if all(f(1 << k) == v for k, v in enumerate(vs))]
                if kinds:
                    cand[p] = {n: 0 for n in kinds}
                    cand[p].update({"constant": 0} if len(set(vs)) == 1 else {})
                elif len(set(vs)) == 1:
                    self.num[p] = "constant"
        if not cand:
            return
        if grow is None:
            raise Undecided("the numbers the structure holds are not understood")
        rows = 0
        for ks in self.MORE:
            I = engine.new_run(prog)
            cell = Cell(make(I, ks[0]), "sample")
            s = 1 << ks[0]
            for k in ks[1:]:
                grow(I, cell, k)
                s |= 1 << k
                ls = dict(leaf_paths(cell.x))
                rows += 1
                for p, kinds in cand.items():
                    for n in kinds:
                        kinds[n] += ls.get(p) == (words[0][p] if n == "constant" else self.KINDS[n](s))
        for p, kinds in cand.items():
            n = max(kinds, key=lambda n: kinds[n])
            if kinds[n] * 2 < rows:
                raise Undecided("a number the structure holds is not understood")
            self.num[p] = n

    def number(self, p, c):
        kind = self.num[p]
        if kind == "constant":
            return None
        if kind.startswith("count"):
            return lin_add(self.count(c.unknown), bin(c.ones).count("1") - (kind != "count"))
        if kind.endswith("keys") or kind.endswith("key"):
            n = bin(c.ones).count("1")
            some = len(c.some) if isinstance(c.some, tuple) else bool(c.some)
            if n + some > 1:
                one = False
            elif n == 1 and not c.unknown:
                one = True
            else:
                return term("set", (kind, c.ones, c.unknown))
            return int(one == (kind == "one key"))
        f = self.KINDS[kind]
        open_ = c.unknown & (below(f(c.ones)) if kind == "least" else above(f(c.ones))) if c.ones else c.unknown
        return term("set", (kind, c.ones, c.unknown)) if open_ else f(c.ones)

    def __init__(self, prog, make, listkind=None, grow=None):
        sample = None
        words = {}
        self.listkind = listkind
        for k in range(256):
            v = make(engine.new_run(prog), k)
            ls = dict(leaf_paths(v))
            if sample is None:
                sample = v
                self.paths = sorted(ls, key=repr)
            if sorted(ls, key=repr) != self.paths:
                raise Undecided("singletons of different shapes")
            words[k] = ls
        self.sample = sample
        self.bit = {}
        self.numbers(prog, make, grow, words)
        self.words = [p for p in self.paths if p not in self.num and any(isinstance(words[k][p], int) and words[k][p] for k in words)]
        self.lists = [p for p in self.paths if isinstance(words[0][p], SymList)]
        if listkind and len(self.lists) != 1 or not listkind and self.lists:
            raise Undecided("unexpected list fields")
        for k, ls in words.items():
            hot = [(p, ls[p]) for p in self.words if ls[p]]
            if len(hot) != 1 or hot[0][1] & (hot[0][1] - 1):
                raise Undecided(f"key {k} is not represented by one bit")
            self.bit[k] = (hot[0][0], hot[0][1])
        if len(set(self.bit.values())) != 256:
            raise Bad("two keys share one bit: their singletons are identical")
        self.width = {}
        for p, b in self.bit.values():
            self.width[p] = max(self.width.get(p, 0), b.bit_length())
        for p in self.width:
            w = 8
            while w < self.width[p]:
                w *= 2
            self.width[p] = w
        self.full = {p: 0 for p in self.words}
        for p, b in self.bit.values():
            self.full[p] |= b

        # words whose bits follow the key order allow a shift instead of a loop
        self.base = {}
        for k, (p, b) in self.bit.items():
            self.base.setdefault(p, set()).add(k - (b.bit_length() - 1))
        self.affine = all(len(v) == 1 for v in self.base.values())
        self.base = {p: next(iter(v)) for p, v in self.base.items()}

    def masks(self, keys):
        """keys: 256-bit set -> mask per word."""
        if self.affine:
            return {p: (keys >> b if b >= 0 else keys << -b) & self.full[p] for p, b in self.base.items()}
        r = {p: 0 for p in self.words}
        k = keys
        while k:
            b = k & -k
            p, m = self.bit[b.bit_length() - 1]
            r[p] |= m
            k ^= b
        return r

    def count(self, keys):
        ts = [(("pc", p, m), 1) for p, m in self.masks(keys).items() if m]
        return mklin(0, ts)


class Case:
    """ones/unknown: disjoint key sets; some: a key set known to meet the set."""

    far = False                 # one of very many classes: not split by its ends

    def __init__(self, name, ones, unknown, some=None, k=None):
        self.name, self.ones, self.unknown, self.some, self.k = name, ones, unknown, some, k

    def put(self, k):
        return Case(self.name, self.ones | 1 << k, self.unknown & ~(1 << k), self.some, self.k)

    def drop(self, k):
        return Case(self.name, self.ones & ~(1 << k), self.unknown & ~(1 << k), self.some, self.k)


def show(c):
    l, i = [], 0
    while i < 256:
        j = i
        while j < 256 and c.ones >> j & 1:
            j += 1
        if j - i > 2:
            l.append(f"{i}..={j - 1}")
        else:
            l += [str(x) for x in range(i, j)]
        i = j + 1
    if c.unknown:
        lo = (c.unknown & -c.unknown).bit_length() - 1
        hi = c.unknown.bit_length() - 1
        l.append(f"any of {lo}..={hi}" + (" (at least one)" if c.some else ""))
    return "{" + ", ".join(l) + "}"


VAL = {}


def val(k):
    return VAL.setdefault(k, term("val", ("v", k)))


CHILD_K, CHILD_NEW, CHILD_OLD = term("lo", 5), term("lo", 3), term("val", "old")


def child(k):
    import contracts as C
    return ATreeV("child", [("e", CHILD_K, term("val", ("c", k))), C.rest(("in", k), 5, 100, "lo", "val")])


def items(L, c, elem):
    """The list a case stands for: named elements at the ones, runs elsewhere."""
    out, run = [], 0
    ones = c.ones
    cuts = []
    rem = ones | (1 << c.k if c.k is not None else 0)
    while rem:
        cuts.append((rem & -rem).bit_length() - 1)
        rem &= rem - 1
    prev = 0
    for k in cuts + [256]:
        seg = c.unknown & ((1 << k) - 1) & ~((1 << prev) - 1)
        if seg:
            out.append(("r", ("run", seg), L.count(seg)))
        if k < 256 and ones >> k & 1:
            out.append(("e", elem(k)))
        prev = k if k < 256 and not ones >> k & 1 else k + 1
    return out


def state(L, c, elem=None, override=None):
    ones, unk = L.masks(c.ones), L.masks(c.unknown)

    def leaf(p, v):
        if p in ones:
            return mkbits(L.width[p], ones[p], [(p, 0, unk[p], False)])
        if p in L.num:
            n = L.number(p, c)
            return v if n is None else n
        if L.listkind and p == L.lists[0]:
            it = items(L, c, elem or val)
            if override:
                it = [("e", override[x[1]]) if x[0] == "e" and x[1] in override else x for x in it]
            return SymList(L.listkind, it)
        return v
    return rebuild(L.sample, leaf)


def facts(L, c):
    if not c.some:
        return None
    out = {}
    for s in c.some if isinstance(c.some, tuple) else (c.some,):
        hot = {p: x for p, x in L.masks(s).items() if x}
        if len(hot) != 1:
            raise ValueError("a fact spans words")
        out.update(hot)
    return out


def refine(L, c):
    """The case split by which words hold unknown keys: an exhaustive partition
    in which the code may ask whether a word is empty."""
    words = []
    for p in L.words:
        s = 0
        for k in range(256):
            if c.unknown >> k & 1 and L.bit[k][0] == p:
                s |= 1 << k
        if s:
            words.append(s)
    if len(words) > 4:
        return
    for m in range(1 << len(words)):
        got = tuple(s for i, s in enumerate(words) if m >> i & 1)
        if c.some and not any(s & x for s in got for x in (c.some if isinstance(c.some, tuple) else (c.some,))):
            continue
        unk = 0
        for s in got:
            unk |= s
        yield Case(c.name, c.ones, unk, got or None, c.k)


def splittable(L, c, body):
    if L.observer:
        inner = body

        def body(I, c=c):
            I.env["observe"], I.env["numbers"] = L.observer, L.num
            return inner(I, c)

    def parts():
        for d in list(pinned(L, c)) or refine(L, c):
            yield (lambda I, d=d: body(I, d)), facts(L, d)

    def probes():
        for d in narrower(L, c):
            yield d.name, (lambda I, d=d: body(I, d)), facts(L, d)
    body.parts = parts
    body.probes = probes
    return body


def pinned(L, c):
    """The case split by its outermost unknown keys, where the structure holds the
    number of one of its ends and few enough classes result."""
    kinds = set(L.num.values()) & {"least", "largest", "one key", "more keys"}
    need = c.some if isinstance(c.some, tuple) else (c.some,) if c.some else ()
    if not kinds or not c.unknown or c.far or (c.ones.bit_length() - 1 if c.k is None else c.k) not in EDGES:
        return
    if not need:
        yield Case(c.name, c.ones, 0, None, c.k)
    low = "least" in kinds
    for k in range(256):
        if not c.unknown >> k & 1:
            continue
        rest = c.unknown & (above(k) if low else below(k))
        left = tuple(x for x in need if not x >> k & 1)
        if all(x & rest for x in left):
            yield Case(c.name, c.ones | 1 << k, rest, tuple(x & rest for x in left) or None, c.k)


def narrower(L, c):
    """Some narrower classes, in which the outermost unknown key of a word is known:
    they cannot show that the class holds, but any of them can show it does not."""
    if L.observer:
        ks = [k for k in range(256) if c.unknown >> k & 1]
        for s in (0, c.unknown, *(1 << k for k in ks[:2] + ks[-2:])):
            if all(x & (c.ones | s) for x in (c.some if isinstance(c.some, tuple) else (c.some,) if c.some else ())):
                yield Case(f"{c.name}, {show(Case('', c.ones | s, 0))}", c.ones | s, 0, None, c.k)
        return
    words = []
    for p in L.words:
        ks = [k for k in range(256) if c.unknown >> k & 1 and L.bit[k][0] == p]
        if ks:
            words.append(ks)
    for i, ks in enumerate(words):
        mask = sum(1 << k for k in ks)
        some = ks if len(ks) <= 8 else ks[:3] + ks[len(ks) // 2:len(ks) // 2 + 2] + ks[-3:]
        for rest in (c.unknown & ~mask, 0) if len(words) > 1 else (0,):
            for k in some:
                need = c.some if isinstance(c.some, tuple) else (c.some,) if c.some else ()
                if not all(x & (c.ones | 1 << k) for x in need):
                    continue
                for inner in dict.fromkeys((mask & above(k), mask & below(k), 0)):
                    yield Case(f"{c.name}, {k} the outermost of its word", c.ones | 1 << k, rest | inner, None, c.k)


def somes(L, keys):
    """Covers of 'keys is not empty': one case per word."""
    out = []
    for p in L.words:
        s = 0
        for k in range(256):
            if keys >> k & 1 and L.bit[k][0] == p:
                s |= 1 << k
        if s:
            out.append(s)
    return out


def below(k):
    return (1 << k) - 1


def above(k):
    return ALL & ~((1 << (k + 1)) - 1)


def same(I, got, want, what):
    got, want = I.full(got) if isinstance(got, Ref) else got, want
    if got == want:
        return
    g, w = dict(leaf_paths(got)), dict(leaf_paths(want))
    if set(g) == set(w):
        for p in w:
            a, b = g[p], w[p]
            if a == b or p in I.env.get("numbers", ()):
                continue
            if isinstance(a, (int, Bits)) and isinstance(b, (int, Bits)):
                x = b_xor(256, a, b)
                xo, xs, xu = parts(x)
                if xo or xs:
                    raise BadState(f"{what}: the stored set differs ({a!r} instead of {b!r})")
            elif isinstance(a, SymList) and isinstance(b, SymList):
                raise BadState(f"{what}: the list is {a!r} instead of {b!r}")
        if I.env.get("observe"):
            settled(want)
            I.env["observe"](I, got, want, what)
    raise Undecided(f"{what}: unexpected state {got!r}")


def plain(I, v):
    """A result to compare, references read."""
    if isinstance(v, Ref):
        v = I.full(v)
    if isinstance(v, Agg):
        return Agg(v.v, tuple(plain(I, x) for x in v.f))
    if isinstance(v, BoxV):
        return plain(I, v.x)
    if v is TOP:
        raise Undecided("unknown result")
    return I.nl(v) if isinstance(v, Lin) else v


def settled(v):
    if isinstance(v, Agg):
        for x in v.f:
            settled(x)
    elif isinstance(v, Term) and v[0] == "set":
        raise Undecided("a number the structure holds is not known here")


def landmarks(k, side):
    """(case, expected): nearest present key on `side` of k."""
    if side == "pred":
        for j in range(k):
            yield j, (1 << j), ALL & ~below(k) | below(j)
        yield None, 0, ALL & ~below(k)
    else:
        for j in range(k + 1, 256):
            yield j, (1 << j), ALL & ~above(k) | above(j)
        yield None, 0, ALL & ~above(k)


FRESH = term("val", "fresh")


class Suite:
    """ByteSet (listkind None) or ByteMap over an abstract value list."""

    def __init__(self, prog, name):
        self.prog, self.name = prog, name
        self.map = name == "bytemap"
        self.L = Layout(prog, lambda I, k: root(I, name + ".from_monad", k, val(k) if self.map else UNIT),
                        "val" if self.map else None,
                        lambda I, c, k: root(I, name + ".insert", Ref(c), k, val(k) if self.map else UNIT))
        if any(k != "constant" for k in self.L.num.values()):
            self.L.observer = self.observe

    def observe(self, I, got, want, what):
        """Two states that differ in a number they hold: does a query tell them apart?"""
        ask = [(q, ()) for q in ("min_val", "max_val", "is_monad", "len_hint")]
        ask += [(q, (k,)) for q in ("find", "predecessor", "successor") for k in EDGES]
        ask += [("remove_min", None), ("remove_max", None), ("into_monad", None)]
        for q, args in ask:
            seen = []
            for st in (got, want):
                n = len(I.trace)
                try:
                    r = root(I, f"{self.name}.{q}", st) if args is None else \
                        root(I, f"{self.name}.{q}", Ref(Cell(st, "set")), *(Ref(Cell(k, "k")) for k in args))
                except Panic as e:
                    r = f"a panic ({e.what})"
                except Undecided:
                    break
                seen.append(plain(I, r))
            if len(seen) == 2 and seen[0] != seen[1]:
                settled(seen[1])
                raise BadState(f"{what}: afterwards {q}{args or ()} is {seen[0]!r} instead of {seen[1]!r}")

    def v(self, k):
        return val(k) if self.map else UNIT

    def one(self, op, c, body):
        return (self.name, op, c.name, splittable(self.L, c, body), facts(self.L, c))

    def run(self, op, *args):
        return lambda I: root(I, f"{self.name}.{op}", *args)

    def entry(self, I, r, k, what):
        if k is None:
            if r != NONE:
                raise Bad(f"{what} returned {mb_key(I, r.f[0].f[0])!r} instead of None")
            return
        if r == NONE:
            raise Bad(f"{what} returned None instead of {k}")
        self.pair(I, r.f[0], k, what)

    def pair(self, I, p, k, what):
        g = mb_key(I, p.f[0])
        if isinstance(g, int) and g != k:
            raise Bad(f"{what} returned key {g} instead of {k}")
        if g != k:
            raise Undecided(f"{what}: key {g!r}")
        x = I.full(p.f[1])
        if x != self.v(k):
            raise Bad(f"{what} returned the value {x!r} which is not the one stored under {k}")

    def owned(self, p, k, what):
        if isinstance(p.f[0], int) and p.f[0] != k:
            raise Bad(f"{what} returned the key {p.f[0]} instead of {k}")
        if p.f[0] != k:
            raise Undecided(f"{what}: key {p.f[0]!r}")
        if p.f[1] != self.v(k):
            raise Bad(f"{what} returned the value {p.f[1]!r} which is not the one stored under {k}")

    def through(self, I, cell, ref, c, k, what):
        """Write through a returned &mut: exactly the entry of k changes."""
        if self.map:
            I.store(ref, FRESH)
            same(I, cell.x, state(self.L, c, override={val(k): FRESH}), f"writing through {what}")
        else:
            same(I, cell.x, state(self.L, c), what)

    def queries(self, ops, stride=1):
        for op in ops:
            base = op[:-4] if op.endswith("_mut") else op
            if base == "find":
                for k in range(256):
                    for here in (0, 1):
                        c = Case(f"{k}{'∈' if here else '∉'}", here << k, ALL & ~(1 << k), k=k)
                        yield self.q(op, c, k if here else None)
                continue
            side = {"predecessor": "pred", "successor": "succ"}[base]
            for k in range(256):
                for n, (j, ones, unk) in enumerate(landmarks(k, side)):
                    if j is not None and stride > 1 and (k + 3 * j) % stride and abs(k - j) > 2 and not {k, j} & {0, 63, 64, 127, 128, 191, 192, 255}:
                        continue
                    c = Case(f"{k}→{j}", ones, unk, k=k)
                    c.far = j is not None
                    yield self.q(op, c, j)

    def q(self, op, c, want):
        what = f"{op}({c.k}) on {show(c)}"

        def body(I, c=c):
            cell = Cell(state(self.L, c), "set")
            r = root(I, f"{self.name}.{op}", Ref(cell), Ref(Cell(c.k, "k")))
            self.entry(I, r, want, what)
            if op.endswith("_mut") and want is not None:
                self.through(I, cell, r.f[0].f[1], c, want, what)
            else:
                same(I, cell.x, state(self.L, c), what)
        return self.one(op, c, body)

    def ends(self, ops):
        """min/max and removal at the ends, by the extreme key and what else is there."""
        for op in ops:
            low = "min" in op or op == "lowest"
            for j in range(256):
                others = above(j) if low else below(j)
                cs = [Case(f"{j} only", 1 << j, 0)]
                cs += [Case(f"{j} and more/{i}", 1 << j, others, s) for i, s in enumerate(somes(self.L, others))]
                for c in cs:
                    yield self.end(op, c, j)

    def end(self, op, c, j):
        what = f"{op} on {show(c)}"

        def body(I, c=c):
            st = state(self.L, c)
            if op in ("lowest", "highest"):
                r = root(I, f"{self.name}_{op}", Ref(Cell(st, "set")))
                if r != j:
                    raise (Bad if isinstance(r, int) else Undecided)(f"{what} is {r!r} instead of {j}")
            elif op.startswith("remove"):
                r = root(I, f"{self.name}.{op}", st)
                self.owned(r.f[1], j, what)
                self.after(I, r.f[0], c.drop(j), what)
            else:
                cell = Cell(st, "set")
                r = root(I, f"{self.name}.{op}", Ref(cell))
                self.pair(I, r, j, what)
                if op.endswith("_mut"):
                    self.through(I, cell, r.f[1], c, j, what)
                else:
                    same(I, cell.x, state(self.L, c), what)
        return self.one(op, c, body)

    def after(self, I, o, c, what):
        if not c.ones and not c.unknown:
            if o != NONE:
                raise BadState(f"{what} left a structure although nothing remains")
        elif o == NONE:
            raise BadState(f"{what} left nothing although keys remain")
        else:
            same(I, o.f[0], state(self.L, c), what)

    def inserts(self):
        for k in range(256):
            for here in (0, 1):
                c = Case(f"{k}{'∈' if here else '∉'}", here << k, ALL & ~(1 << k), k=k)
                yield self.ins(c, k, here)

    def ins(self, c, k, here):
        what = f"insert({k}) on {show(c)}"

        def body(I, c=c):
            cell = Cell(state(self.L, c), "set")
            r = root(I, f"{self.name}.insert", Ref(cell), k, FRESH if self.map else UNIT)
            if here:
                if r == NONE:
                    raise Bad(f"{what} returned None although the key was present")
                self.owned(r.f[0], k, what)
            elif r != NONE:
                raise Bad(f"{what} returned {r!r} for a key that was absent")
            same(I, cell.x, state(self.L, c.put(k), override={val(k): FRESH}), what)
        return self.one("insert", c, body)

    def removes(self):
        for k in range(256):
            others = ALL & ~(1 << k)
            yield self.rem(Case(f"{k}∉", 0, others, k=k), k, 0)
            yield self.rem(Case(f"{k} only", 1 << k, 0, k=k), k, 1)
            for i, s in enumerate(somes(self.L, others)):
                yield self.rem(Case(f"{k} and more/{i}", 1 << k, others, s, k=k), k, 1)

    def rem(self, c, k, here):
        what = f"remove({k}) on {show(c)}"

        def body(I, c=c):
            r = root(I, f"{self.name}.remove", state(self.L, c), Ref(Cell(k, "k")))
            if not here:
                if r.v != 1:
                    raise Bad(f"{what} returned Ok for an absent key")
                kept(same, I, r.f[0], state(self.L, c), what)
                return
            if r.v != 0:
                raise Bad(f"{what} returned Err although the key is present")
            self.owned(r.f[0].f[1], k, what)
            self.after(I, r.f[0].f[0], c.drop(k), what)
        return self.one("remove", c, body)

    def monad(self, ops):
        for op in ops:
            for j in range(256):
                c = Case(f"{j} only", 1 << j, 0)
                yield self.mon(op, c, j)
                for i, s in enumerate(somes(self.L, above(j))):
                    yield self.mon(op, Case(f"{j} and more/{i}", 1 << j, above(j), s), None)

    def mon(self, op, c, j):
        what = f"{op} on {show(c)}"

        def body(I, c=c):
            st = state(self.L, c)
            if op == "is_monad":
                r = root(I, f"{self.name}.is_monad", Ref(Cell(st, "set")))
                if bool(r) != (j is not None):
                    raise Bad(f"{what} is {bool(r)}")
                return
            r = root(I, f"{self.name}.into_monad", st)
            if j is None:
                if r.v != 1:
                    raise Bad(f"{what} returned Ok although several keys are present")
                kept(same, I, r.f[0], st, what)
            else:
                if r.v != 0:
                    raise Bad(f"{what} returned Err for a single key")
                self.owned(r.f[0], j, what)
        return self.one(op, c, body)

    def singles(self):
        for k in range(256):
            c = Case(f"{k} only", 1 << k, 0)

            def body(I, c=c, k=k):
                r = root(I, f"{self.name}.from_monad", k, self.v(k))
                same(I, r, state(self.L, c), f"from_monad({k})")
            yield self.one("from_monad", c, body)

    def counts(self, ops):
        for op in ops:
            if self.map or op == "len_hint":
                for j in range(256):
                    yield self.cnt(op, Case(f"{j} only", 1 << j, 0))
                    for i, s in enumerate(somes(self.L, above(j))):
                        yield self.cnt(op, Case(f"{j} and more/{i}", 1 << j, above(j), s))
                continue
            for i, s in enumerate(somes(self.L, ALL)):
                c = Case(f"any/{i}", 0, ALL, s)
                yield self.cnt(op, c)

    def cnt(self, op, c):
        what = f"{op} on {show(c)}"

        def body(I, c=c):
            n = lin_add(self.L.count(c.unknown), bin(c.ones).count('1'))
            cell = Cell(state(self.L, c), "set")
            if op == "len":
                r = root(I, f"{self.name}_len", Ref(cell))
                nonzero(I, r, n, what)
            elif op == "len_hint":
                r = root(I, f"{self.name}.len_hint", Ref(cell))
                hint(I, r, n, what)
            elif op == "clone":
                r = root(I, f"{self.name}_clone", Ref(cell))
                same(I, r, state(self.L, c), what)
            elif op == "clone_from":
                for d in CLONE_INTO:
                    into = Cell(state(self.L, Case("", d, 0)), "target")
                    root(I, f"{self.name}_clone_from", Ref(into), Ref(cell))
                    same(I, into.x, state(self.L, c), f"{what} into {show(Case('', d, 0))}")
        return self.one(op, c, body)

    def eqs(self):
        c = Case("same", 0, ALL, somes(self.L, ALL)[0])
        L = self.L

        def body(I):
            r = root(I, f"{self.name}_eq", Ref(Cell(state(L, c))), Ref(Cell(state(L, c))))
            if not r:
                raise Bad("equal sets compare unequal")
            if root(I, f"{self.name}_ne", Ref(Cell(state(L, c))), Ref(Cell(state(L, c)))):
                raise Bad("equal sets differ according to !=")
        yield self.one("eq", c, body)
        for k in range(256):
            a = Case(f"differ at {k}", 1 << k, ALL & ~(1 << k))
            b = Case("", 0, ALL & ~(1 << k))

            def body2(I, a=a, b=b, k=k):
                if root(I, f"{self.name}_eq", Ref(Cell(state(L, a))), Ref(Cell(state(L, b)))):
                    raise Bad(f"sets differing in {k} compare equal")
                if not root(I, f"{self.name}_ne", Ref(Cell(state(L, a))), Ref(Cell(state(L, b)))):
                    raise Bad(f"sets differing in {k} do not differ according to !=")
            yield self.one("eq", a, body2)


    def shapes(self, ops):
        """Whole sets at the limits of the representation, at the keys around
        its word boundaries: nothing is unknown, so counts are numbers."""
        for name, s in SHAPES:
            lo, hi = (s & -s).bit_length() - 1, s.bit_length() - 1
            single = lo == hi
            for op in ops:
                base = op[:-4] if op.endswith("_mut") else op
                if base in ("find", "predecessor", "successor"):
                    for k in EDGES:
                        part = s >> k & 1 if base == "find" else s & (below(k) if base == "predecessor" else above(k))
                        want = (k if part else None) if base == "find" else None if not part else \
                            part.bit_length() - 1 if base == "predecessor" else (part & -part).bit_length() - 1
                        yield self.q(op, Case(f"{name} at {k}", s, 0, k=k), want)
                elif base in ("min_val", "remove_min", "lowest"):
                    yield self.end(op, Case(name, s, 0), lo)
                elif base in ("max_val", "remove_max", "highest"):
                    yield self.end(op, Case(name, s, 0), hi)
                elif op == "insert":
                    for k in EDGES:
                        yield self.ins(Case(f"{name} at {k}", s, 0, k=k), k, s >> k & 1)
                elif op == "remove":
                    for k in EDGES:
                        yield self.rem(Case(f"{name} at {k}", s, 0, k=k), k, s >> k & 1)
                elif op in ("is_monad", "into_monad"):
                    yield self.mon(op, Case(name, s, 0), lo if single else None)
                elif op == "len_hint" or not self.map and op in ("len", "clone", "clone_from"):
                    yield self.cnt(op, Case(name, s, 0))


EDGES = (0, 1, 63, 64, 126, 127, 128, 129, 191, 192, 254, 255)
CLONE_INTO = (1 << 5 | 1 << 200, ALL, 1 << 7)
SHAPES = [("all 256", ALL), ("all but 0", ALL & ~1), ("all but 255", ALL >> 1), ("all but 127", ALL & ~(1 << 127)),
          ("0..128", below(128)), ("128..256", ALL & ~below(128)), ("127 and 128", 3 << 127), ("0 and 255", 1 | 1 << 255)]


def nonzero(I, r, n, what):
    while isinstance(r, Agg) and len(r.f) == 1:
        r = r.f[0]
    r = I.nl(r)
    if r != I.nl(n):
        if isinstance(r, (int, Lin)):
            raise Bad(f"{what} is {r!r} instead of {n!r}")
        raise Undecided(f"{what}: {r!r}")


def hint(I, r, n, what):
    """lower <= n <= upper for every value of the quantities."""
    lo, hi = r.f
    n = I.nl(n)
    if not isinstance(lo, (int, Lin)):
        raise Undecided(f"{what}: lower bound {lo!r}")
    if I.int_bounds(lin_add(n, I.nl(lo), -1))[0] < 0:
        raise Bad(f"{what}: lower bound {lo!r} can exceed the number of keys {n!r}")
    if hi != NONE:
        h = hi.f[0]
        if not isinstance(h, (int, Lin)):
            raise Undecided(f"{what}: upper bound {h!r}")
        if I.int_bounds(lin_add(I.nl(h), n, -1))[0] < 0:
            raise Bad(f"{what}: upper bound {h!r} can be below the number of keys {n!r}")


# ------------------------------------------------- ByteMap as a TreeCollection

class Coll:
    name = "coll_byte"

    def __init__(self, prog):
        self.L = Layout(prog, lambda I, k: root(I, "coll_byte.create", Ref(Cell(k)), child(k)), "child",
                        lambda I, c, k: root(I, "coll_byte.insert_key", Ref(c), k, Agg(None, (CHILD_K, val(("c", k))))))
        if any(k != "constant" for k in self.L.num.values()):
            self.L.observer = self.observe

    def observe(self, I, got, want, what):
        for k in EDGES:
            seen = []
            for st in (got, want):
                try:
                    r = root(I, "coll_byte.get", Ref(Cell(st, "coll")), Ref(Cell(k)))
                except Panic as e:
                    r = f"a panic ({e.what})"
                seen.append(plain(I, r))
            if seen[0] != seen[1]:
                settled(seen[1])
                raise BadState(f"{what}: afterwards get({k}) is {seen[0]!r} instead of {seen[1]!r}")

    def st(self, c, override=None):
        return state(self.L, c, child, override)

    def cases(self, removal=False):
        for name, s in SHAPES:
            for k in EDGES:
                yield Case(f"{name} at {k}", s, 0, k=k), bool(s >> k & 1)
        for k in range(256):
            others = ALL & ~(1 << k)
            yield Case(f"{k}∉", 0, others, k=k), False
            if removal:
                yield Case(f"{k} only", 1 << k, 0, k=k), True
                for i, s in enumerate(somes(self.L, others)):
                    yield Case(f"{k} and more/{i}", 1 << k, others, s, k=k), True
            else:
                yield Case(f"{k}∈", 1 << k, others, k=k), True

    def obligations(self, ops):
        L = self.L
        for op in ops:
            if op == "create":
                for k in range(256):
                    def body(I, k=k):
                        same(I, root(I, "coll_byte.create", Ref(Cell(k)), child(k)), self.st(Case("", 1 << k, 0)), f"create({k})")
                    yield (self.name, op, f"{k}", body, None)
                continue
            for c, here in self.cases(op in ("remove_key", "maybe_remove_key")):
                if op == "insert_key":
                    for new in ((0, 1) if here else (0,)):
                        yield (self.name, op, c.name + ("/new" if new else ""), self.insert(c, here, new), facts(L, c))
                elif op in ("get", "get_mut"):
                    yield (self.name, op, c.name, self.get(op, c, here), facts(L, c))
                elif op == "remove_key" and not here:
                    continue
                else:
                    yield (self.name, op, c.name, self.remove(op, c, here), facts(L, c))

    def get(self, op, c, here):
        what = f"{op}({c.k}) on {show(c)}"

        def body(I, c=c):
            cell = Cell(self.st(c), "coll")
            r = root(I, f"coll_byte.{op}", Ref(cell), Ref(Cell(c.k)))
            engine.cost(I, what, I.events, 0)
            check_get(I, r, child(c.k) if here else None, what)
            if here and op == "get_mut":
                I.store(r.f[0], LEFT)
                same(I, cell.x, self.st(c, {child(c.k): LEFT}), f"writing through {what}")
            else:
                same(I, cell.x, self.st(c), what)
        return splittable(self.L, c, body)

    def insert(self, c, here, new):
        what = f"insert_key({c.k}) on {show(c)}"
        lo = CHILD_NEW if new else CHILD_K

        def body(I, c=c):
            cell = Cell(self.st(c), "coll")
            r = root(I, "coll_byte.insert_key", Ref(cell), c.k, Agg(None, (lo, FRESH)))
            engine.cost(I, what, I.events, 1 if here else 0)
            check_insert(I, r, c.k, here, child(c.k), lo, what)
            nc = inserted(child(c.k) if here else None, lo)
            same(I, cell.x, self.st(c.put(c.k), {child(c.k): nc}), what)
        return splittable(self.L, c, body)

    def remove(self, op, c, here):
        what = f"{op}({c.k}) on {show(c)}"

        def body(I, c=c):
            r = root(I, f"coll_byte.{op}", self.st(c), Ref(Cell(c.k)))
            engine.cost(I, what, I.events, 0)
            d = c.drop(c.k)
            gone = self.st(d) if d.ones or d.unknown else None
            check_remove(I, r, op, child(c.k) if here else None, gone, self.st(c, {child(c.k): LEFT}), self.st(c), what, same)
        return splittable(self.L, c, body)


def inserted(ch, lo):
    if ch is None:
        return ATreeV("child", [("e", lo, FRESH)])
    if lo == CHILD_K:
        return ATreeV("child", (("e", lo, FRESH),) + ch.items[1:])
    return ATreeV("child", (("e", lo, FRESH),) + ch.items)


def check_get(I, r, want, what):
    if want is None:
        if r != NONE:
            raise Bad(f"{what} returned a subtree for an absent key")
        return
    if r == NONE:
        raise Bad(f"{what} returned None although the key is present")
    g = deep(I, I.full(r.f[0]))
    if g != want:
        raise Bad(f"{what} returned the subtree {g!r} instead of {want!r}")


def check_insert(I, r, k, here, ch, lo, what):
    if not here:
        if r.v != 0:
            raise Bad(f"{what} returned Err although the key was absent")
        if r.f[0] != k:
            raise Bad(f"{what} returned the key {r.f[0]!r}")
        return
    if r.v != 1:
        raise Bad(f"{what} returned Ok although the key was present")
    h, old = r.f[0].f
    if h != k:
        raise Bad(f"{what} returned the key {h!r}")
    want = some(Agg(None, (ch.items[0][1], ch.items[0][2]))) if lo == CHILD_K else NONE
    if old != want:
        raise Bad(f"{what} returned {old!r} instead of {want!r} as the replaced entry")


def check_remove(I, r, op, ch, gone, left, before, what, same):
    args = I.env.get("removal_args", [])
    if ch is None:
        if r.v != 1:
            raise Bad(f"{what} returned Ok for an absent key")
        if args:
            raise Bad(f"{what} ran the removal although the key is absent")
        kept(same, I, r.f[0], before, what)
        return
    if len(args) != 1:
        raise Bad(f"{what} ran the removal {len(args)} times")
    if args[0] != ch:
        raise Bad(f"{what} ran the removal on {args[0]!r} instead of {ch!r}")
    outcome = I.trace_outcome()
    if op == "maybe_remove_key":
        if outcome == 2:
            if r.v != 1:
                raise Bad(f"{what} returned Ok although nothing was removed")
            kept(same, I, r.f[0], left, what)
            return
        if r.v != 0:
            raise Bad(f"{what} returned Err although an entry was removed")
        r = r.f[0]
    o, kv = r.f
    if kv != REMOVED_KV:
        raise Bad(f"{what} returned {kv!r} instead of what the removal returned")
    if outcome == 0:
        if o == NONE:
            raise Bad(f"{what} returned no collection although the subtree still has entries")
        s, flag = o.f[0].f
        if flag:
            raise Bad(f"{what} reports the key as removed although its subtree still has entries")
        same(I, s, left, what)
    elif gone is None:
        if o != NONE:
            raise Bad(f"{what} returned a collection although nothing remains")
    else:
        if o == NONE:
            raise Bad(f"{what} returned no collection although other subtrees remain")
        s, flag = o.f[0].f
        if not flag:
            raise Bad(f"{what} does not report the key as removed although its subtree is empty")
        same(I, s, gone, what)
