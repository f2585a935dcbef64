"""Keys: splitting, joining, dense indices, the small integers, MaybeBorrowed
and Clone.

Integer keys are analysed bit by bit: every result bit is traced back to the
key bit it carries.  A strictly monotone map from the 2^w keys onto the 2^w
pairs of halves is unique, so the halves of a key must be the leading and the
trailing bits of its rank (its offset from MIN)."""
from domain import *
import engine
from engine import Bad, root
from contracts import ATreeV, ORD, order, mb_key, mb_owned, mb_borrowed
from models_std import NONE, some, tup, unwrap
import re

M = lambda w: (1 << w) - 1
# name -> (width, signed, width of the low half)
INTS = {f"{p}{w}": (w, p == "i", w // 2) for w in (128, 64, 32, 16, 8) for p in "ui"}
SMALL = {"u4": (4, False, 2), "u2": (2, False, 1)}
ARRAYS = {2: 1, 3: 1, 4: 2, 5: 2, 6: 3, 7: 3, 8: 4, 16: 8}
SIZED = {"u64": 64, "i64": 64, "u32": 32, "i32": 32, "u16": 16, "i16": 16, "u8": 8, "i8": 8, "u4": 4, "u2": 2}


def key_cases(n):
    """Symbolic keys by top bit, then boundary constants."""
    if n in INTS:
        w, s, l = INTS[n]
        for top in (0, 1):
            yield f"top bit {top}", mkbits(w, top << (w - 1), [("key", 0, M(w - 1), False)])
        h = 1 << (w - 1)
        each = {y for i in range(w) for y in (1 << i, M(i), h ^ 1 << i)}
        for c in sorted(each | {0, 1, h - 1, h, h + 1, M(w), M(w) - 1, M(l), M(w) ^ M(l), 0x5555555555555555_5555555555555555 & M(w), 0xAAAAAAAAAAAAAAAA_AAAAAAAAAAAAAAAA & M(w)}):
            yield f"key bits {c:#x}", c
    else:
        w, s, l = SMALL[n]
        for c in range(1 << w):
            yield f"key {c}", c


def spec(n, x):
    w, s, l = INTS.get(n) or SMALL[n]
    r = b_xor(w, x, 1 << (w - 1)) if s else x
    return b_ext(w, w - l, False, b_shr(w, r, l)), b_ext(w, l, False, r)


def num(v):
    v = unwrap(v)
    if not isinstance(v, (int, Bits)):
        raise Undecided(f"not a tracked integer: {v!r}")
    return v


def exact(v):
    if isinstance(v, Bits) and v.unk:
        raise Undecided(f"bits of unknown origin: {v!r}")
    return v


def eq_num(got, want, what):
    g = num(got)
    if bits_norm(g) == bits_norm(want):
        return
    exact(g)
    raise Bad(f"{what} is {show(g)} instead of {show(want)}")


def bits_norm(x):
    return x if isinstance(x, int) else (x.ones, x.segs, x.unk)


def show(x):
    return f"{x:#x}" if isinstance(x, int) else repr(x)


def wrapped(n):
    return n in SMALL


def mk(n, x, wrap=True):
    """A key or half value of type n as the program represents it."""
    if n in ("u4", "u2"):
        return Agg(None, (b_ext(SMALL[n][0], 8, False, x),))
    return x


HALF = {"u128": "u64", "i128": "u64", "u64": "u32", "i64": "u32", "u32": "u16", "i32": "u16", "u16": "u8", "i16": "u8",
        "u8": "u4", "i8": "u4", "u4": "u2", "u2": "bool"}


def flat(v):
    if isinstance(v, Agg):
        return [y for x in v.f for y in flat(x)]
    return [v]


class Keys:
    def __init__(self, prog):
        self.prog = prog

    def ints(self, ops):
        for n in list(INTS) + list(SMALL):
            h = HALF[n]
            for cn, x in key_cases(n):
                def split(I, n=n, x=x, how="split_val"):
                    a = mk(n, x)
                    r = root(I, f"key_{n}.{how}", a if how == "split_val" else Ref(Cell(a)))
                    hi, lo = spec(n, x)
                    eq_num(r.f[0], hi, f"the high half of {n} {show(x)} by {how}")
                    eq_num(r.f[1], lo, f"the low half of {n} {show(x)} by {how}")

                def join(I, n=n, x=x, h=h, how="join"):
                    hi, lo = spec(n, x)
                    a, b = mk(h, hi), mk(h, lo)
                    if how == "join_ref":
                        a, b = Ref(Cell(a)), Ref(Cell(b))
                    eq_num(root(I, f"key_{n}.{how}", a, b), x if n not in SMALL else x, f"{how} of the halves of {n} {show(x)}")
                for op in ops:
                    if op == "split_val":
                        yield "keys", op, f"{n}, {cn}", split, None, None, None
                    elif op == "split_ref":
                        yield "keys", op, f"{n}, {cn}", (lambda I, f=split: f(I, how="split_ref")), None, None, None
                    elif op in ("join", "join_ref"):
                        yield "keys", op, f"{n}, {cn}", (lambda I, f=join, o=op: f(I, how=o)), None, None, None
        if "cmp" in ops:
            for n in SMALL:
                w = SMALL[n][0]
                for i in range(1 << w):
                    def cmp(I, n=n, w=w, i=i):
                        for j in range(1 << w):
                            r = root(I, f"key_{n}.cmp", Ref(Cell(mk(n, i))), Ref(Cell(mk(n, j))))
                            if r.v != (i > j) - (i < j) + 1:
                                raise Bad(f"{n} {i} compared with {j} gives {('Less', 'Equal', 'Greater')[r.v]}")
                    yield "keys", "cmp", f"{n} {i} with every {n}", cmp, None, None, None

    def arrays(self, ops):
        for n, hn in ARRAYS.items():
            els = [term("el", i) for i in range(n)]
            arr = Agg(None, tuple(els))
            part = lambda l: l[0] if len(l) == 1 else Agg(None, tuple(l))

            def split(I, n=n, hn=hn, els=els, arr=arr, how="split_val"):
                r = root(I, f"key_a{n}.{how}", arr if how == "split_val" else Ref(Cell(arr)))
                if flat(r.f[0]) != els[:hn] or flat(r.f[1]) != els[hn:]:
                    raise Bad(f"{how} of an array of {n} gives {flat(r.f[0])} and {flat(r.f[1])}")

            def join(I, n=n, hn=hn, els=els, how="join"):
                a, b = part(els[:hn]), part(els[hn:])
                if how == "join_ref":
                    a, b = Ref(Cell(a)), Ref(Cell(b))
                r = root(I, f"key_a{n}.{how}", a, b)
                if flat(r) != els:
                    raise Bad(f"{how} of the halves of an array of {n} gives {flat(r)}")
            for op in ops:
                if op in ("split_val", "split_ref"):
                    yield "keys", op, f"[T; {n}]", (lambda I, f=split, o=op: f(I, how=o)), None, None, None
                elif op in ("join", "join_ref"):
                    yield "keys", op, f"[T; {n}]", (lambda I, f=join, o=op: f(I, how=o)), None, None, None

    def obligations(self, ops):
        yield from self.ints(ops)
        yield from self.arrays(ops)

    # --------------------------------------------------------------- indices
    def type_card(self, n):
        f = self.prog.fns[self.prog.roots[f"idx_{n}.cardinality_type"]]
        s = self.prog.types[f["body"]["locals"][0]]["s"]
        bits = re.findall(r"B([01])\b", s)
        if "UTerm" not in s:
            raise Undecided(f"cardinality type {s}")
        return int("".join(bits) or "0", 2)

    def idx(self, ops):
        for n in ["unit"] + list(SIZED):
            w = SIZED.get(n, 0)

            def card(I, n=n, w=w):
                c = root(I, f"idx_{n}.cardinality")
                if not isinstance(c, int):
                    raise Undecided("cardinality is not a constant")
                want = min(1 << w, M(64))
                if c != want:
                    raise Bad(f"CARDINALITY of {n} is {c} instead of {want}")
                t = self.type_card(n)
                if t != 1 << w:
                    raise Bad(f"the Cardinality type of {n} is {t} instead of {1 << w}")

            def index(I, n=n, w=w):
                """Injective into 0..2^w."""
                if n == "unit":
                    if root(I, "idx_unit.index", Ref(Cell(UNIT))) != 0:
                        raise Bad("index of () is not 0")
                    return
                if n in SMALL:
                    seen = {}
                    for c in range(1 << w):
                        r = num(root(I, f"idx_{n}.index", Ref(Cell(mk(n, c)))))
                        if not isinstance(r, int):
                            raise Undecided("index is not a constant")
                        if r >> w:
                            raise Bad(f"index of {n} {c} is {r}, outside 0..{1 << w}")
                        if r in seen:
                            raise Bad(f"{n} {seen[r]} and {c} share the index {r}")
                        seen[r] = c
                    return
                seen = {}
                for x in range(256) if w == 8 else [0] + [1 << i | 1 << j for i in range(w) for j in range(i + 1)]:
                    r = num(root(I, f"idx_{n}.index", Ref(Cell(x))))
                    if isinstance(r, int) and seen.setdefault(r, x) != x:
                        raise Bad(f"{n} {show(seen[r])} and {show(x)} share the index {show(r)}")
                out = []
                for cn, x in key_cases(n):
                    r = num(root(I, f"idx_{n}.index", Ref(Cell(x))))
                    if isinstance(r, int) and r >> w:
                        raise Bad(f"index of {n} {show(x)} is {show(r)}, outside 0..2^{w}")
                    if isinstance(r, Bits) and (r.ones >> w or any(k >> w and not g for _, _, k, g in r.segs) or any(k >> w for _, _, k, g in r.segs)):
                        raise Bad(f"index of {n} ({cn}) is {show(r)}, outside 0..2^{w}")
                    out.append((x, r))
                consts = {}
                for x, r in out:
                    if isinstance(x, int) and isinstance(r, int):
                        if r in consts and consts[r] != x:
                            raise Bad(f"{n} {show(consts[r])} and {show(x)} share the index {show(r)}")
                        consts[r] = x
                sym = [(x, r) for x, r in out if isinstance(x, Bits)]
                for x, r in sym:
                    exact(r)
                    used = 0
                    for b, sh, k, g in parts(r)[1]:
                        used |= (k << sh if sh >= 0 else k >> -sh)
                    if used != M(w - 1):
                        raise Bad(f"index of {n} ignores the key bits {M(w - 1) & ~used:#x}")
                # the two halves of the key space must not meet
                (_, a), (_, b) = sym
                diff = b_xor(64, a, b)
                if isinstance(diff, int) and diff == 0 or not parts(diff)[0] and not (parts(a)[1] != parts(b)[1]):
                    raise Bad(f"keys of {n} which differ only in the top bit share an index")
                if not parts(diff)[0]:
                    raise Undecided("the images of the two halves are not told apart")
            if "cardinality" in ops:
                yield "index", "cardinality", n, card, None, None, None
            if "index" in ops:
                yield "index", "index", n, index, None, None, None

    # --------------------------------------------------------- small integers
    def small(self):
        def ob(op, case, fn):
            return "small", op, case, fn, None, None, None

        def un(op, arg, ret, f, w):
            def body(I):
                for i in range(1 << w):
                    r = num(root(I, "small." + op, arg(i)))
                    if r != f(i):
                        raise Bad(f"{op}({i}) is {show(r)} instead of {f(i)}")
            return ob(op, "every argument", body)
        s4, s2 = (lambda i: mk("u4", i)), (lambda i: mk("u2", i))
        u8 = lambda i: i
        yield un("u4_from_u8", u8, None, lambda i: i & 15, 8)
        yield un("u8_from_u4", s4, None, lambda i: i, 4)
        yield un("u2_from_u8", u8, None, lambda i: i & 3, 8)
        yield un("u2_from_u4", s4, None, lambda i: i & 3, 4)
        yield un("u4_from_u2", s2, None, lambda i: i, 2)
        yield un("bool_from_u2", s2, None, lambda i: i & 1, 2)
        for n, s, w in (("u4", s4, 4), ("u2", s2, 2)):
            for i in range(1 << w):
                def orr(I, n=n, s=s, w=w, i=i):
                    for j in range(1 << w):
                        r = num(root(I, f"small.{n}_or", s(i), s(j)))
                        if r != i | j:
                            raise Bad(f"{n} {i} | {j} is {show(r)}")

                def eq(I, n=n, s=s, w=w, i=i):
                    for j in range(1 << w):
                        if bool(root(I, f"small.{n}_eq", Ref(Cell(s(i))), Ref(Cell(s(j))))) != (i == j):
                            raise Bad(f"{n} {i} == {j} is {i != j}")

                def sh(I, n=n, s=s, w=w, i=i):
                    for j in range(8):
                        r = num(root(I, f"small.{n}_shl", s(i), j))
                        if r != (i << j) & M(w):
                            raise Bad(f"{n} {i} << {j} is {show(r)}")
                        r = num(root(I, f"small.{n}_shr", s(i), j))
                        if r != i >> j:
                            raise Bad(f"{n} {i} >> {j} is {show(r)}")
                def cmps(I, n=n, s=s, w=w, i=i):
                    for j in range(1 << w):
                        r = root(I, f"small.{n}_compare", Ref(Cell(s(i))), Ref(Cell(s(j))))
                        want = (i != j, i < j, i <= j, i > j, i >= j)
                        if tuple(bool(x) for x in r.f[:5]) != want:
                            raise Bad(f"{n} {i} and {j}: !=, <, <=, >, >= give {r.f[:5]!r}")
                        if r.f[6] != ORD[(i > j) - (i < j)] or r.f[5] != some(ORD[(i > j) - (i < j)]):
                            raise Bad(f"{n} {i} and {j} compare as {r.f[5:]!r}")
                        e = root(I, f"small.{n}_ends", s(i), s(j))
                        if (num(e.f[0]), num(e.f[1])) != (min(i, j), max(i, j)):
                            raise Bad(f"the smaller and the greater of {n} {i} and {j} are {show(e.f[0])} and {show(e.f[1])}")
                yield ob(f"{n}_compare", f"{i} with every {n}", cmps)
                yield ob(f"{n}_or", f"{i} with every {n}", orr)
                yield ob(f"{n}_eq", f"{i} with every {n}", eq)
                yield ob(f"{n}_shift", f"{i} by 0..8", sh)

    # ---------------------------------------------------------- MaybeBorrowed
    def mb(self):
        k, k2 = term("key", 1, 0), term("key", 2, 0)

        def both(I, x):
            return (("Owned", mb_owned(I, x)), ("Borrowed", mb_borrowed(I, Ref(Cell(x, "k")))))

        def is_key(got, want, what):
            if got != want:
                raise Bad(f"{what} gives {got!r} instead of {want!r}")

        def frm(I):
            is_key(mb_key(I, root(I, "mb.from_val", k)), k, "From<B>")
            is_key(mb_key(I, root(I, "mb.from_ref", Ref(Cell(k)))), k, "From<&B>")

        def der(op):
            def g(I):
                for n, m in both(I, k):
                    is_key(I.full(root(I, "mb." + op, Ref(Cell(m)))), k, f"{op} of {n}")
            return g

        def inh(I):
            for n, m in both(I, k):
                is_key(mb_key(I, root(I, "mb.borrow_inherent", Ref(Cell(m)))), k, f"borrow of {n}")
                is_key(mb_key(I, root(I, "mb.clone", Ref(Cell(m)))), k, f"clone of {n}")
                is_key(I.full(root(I, "mb.into_or_clone", m)), k, f"into_or_clone of {n}")
                for n2, m2 in both(I, k2):
                    c = Cell(m2)
                    root(I, "mb.clone_from", Ref(c), Ref(Cell(m)))
                    is_key(mb_key(I, c.x), k, f"clone_from of {n} into {n2}")

        def eq(I):
            for n, m in both(I, k):
                for n2, m2 in both(I, k) + both(I, k2):
                    want = mb_key(I, m2) == k
                    if bool(root(I, "mb.eq", Ref(Cell(m)), Ref(Cell(m2)))) != want:
                        raise Bad(f"{n}({k!r}) == {n2}({mb_key(I, m2)!r}) is {not want}")
                    if bool(root(I, "mb.ne", Ref(Cell(m)), Ref(Cell(m2)))) == want:
                        raise Bad(f"{n}({k!r}) != {n2}({mb_key(I, m2)!r}) is {want}")
        # comparisons, hashing and views a key handed back may implement
        def optional(name, want, what):
            def g(I):
                for n, m in both(I, k):
                    for n2, m2 in both(I, k) + both(I, k2):
                        o = mb_key(I, m2)
                        r = root(I, "mb." + name, Ref(Cell(m)), Ref(Cell(m2)))
                        if r != NONE and r != want(o):
                            raise Bad(f"{what} of {n}({k!r}) with {n2}({o!r}) is {r!r} instead of {want(o)!r}")
            return g

        def feed(I):
            logs = []
            for n, m in both(I, k) + ((None, k),):
                h = Cell(term("hasher"))
                if n is None:
                    from contracts import CON
                    CON["Hash::hash"](I, None, [Ref(Cell(k)), Ref(h)])
                elif not bool(root(I, "mb.feed", Ref(Cell(m)), Ref(h))):
                    return
                logs.append((n, h.x))
            for n, l in logs[:-1]:
                if l != logs[-1][1]:
                    raise Bad(f"hashing {n}({k!r}) feeds {l!r} although the key itself feeds {logs[-1][1]!r}")

        def as_key(I):
            for n, m in both(I, k):
                r = root(I, "mb.as_key", Ref(Cell(m)))
                if r != NONE and I.full(unwrap(r)) != k:
                    raise Bad(f"as_ref of {n}({k!r}) is {I.full(unwrap(r))!r}")

        def same(I):
            for n, m in both(I, k):
                for o in (k, k2):
                    r = root(I, "mb.same", Ref(Cell(m)), Ref(Cell(o)))
                    if r != NONE and bool(unwrap(r)) != (o == k):
                        raise Bad(f"{n}({k!r}) == {o!r} is {bool(unwrap(r))}")

        cmp = lambda o: ORD[order(k, o)]
        yield "maybe_borrowed", "order", "owned and borrowed", optional("order", lambda o: some(cmp(o)), "Ord::cmp"), None, None, None
        yield "maybe_borrowed", "partial", "owned and borrowed", optional("partial", lambda o: some(some(cmp(o))), "partial_cmp"), None, None, None
        for op, f in (("feed", feed), ("as_key", as_key), ("same", same)):
            yield "maybe_borrowed", op, "owned and borrowed", f, None, None, None
        for op, f in (("from", frm), ("deref", der("deref")), ("borrow_trait", der("borrow_trait")), ("into", inh), ("eq", eq)):
            yield "maybe_borrowed", op, "owned and borrowed", f, None, None, None


def tree_clone(prog):
    """Clone of a tree has the same contents and leaves the original alone."""
    import suite_tree as S
    T = S.Templates(prog)
    for w in S.worlds(aligns=("same",), deep_level=False):
        c = S.Content(w.m, w.M, w.groups)

        def body(I, c=c):
            cell = Cell(T.state(c), "tree")
            r = root(I, "tree_clone", Ref(cell))
            S.expect_state(I, T, r, c, f"clone of {S.show(c)}")
            S.expect_state(I, T, cell.x, c, f"the original after clone of {S.show(c)}")
        yield "tree", "clone", w.name, body, None, None, None
    # the same into a tree that exists already and holds something else
    targets = {}
    for w in S.worlds(aligns=("same",), deep_level=False):
        c = S.Content(w.m, w.M, w.groups)
        targets.setdefault((w.M is None, sum(1 for g in w.groups if g[0] == "e"), len(w.groups)), (w.name, c))
    for w in S.worlds(aligns=("same",), deep_level=False):
        c = S.Content(w.m, w.M, w.groups)
        for tn, d in targets.values():
            def body(I, c=c, d=d):
                cell, src = Cell(T.state(d), "target"), Cell(T.state(c), "tree")
                root(I, "tree_clone_from", Ref(cell), Ref(src))
                S.expect_state(I, T, cell.x, c, f"clone_from of {S.show(c)} into {S.show(d)}")
                S.expect_state(I, T, src.x, c, f"the original after clone_from of {S.show(c)}")
            yield "tree", "clone_from", f"{w.name} into {tn}", body, None, None, None
