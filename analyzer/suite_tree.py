"""The recursive tree: every public operation of `Tree<K, V, Summary, Children>`
over opaque keys, summary and collection, for every order type of (min, max,
query key, interior).

A case ("world") fixes how the query key compares with the minimum, the maximum
and the interior, how the halves coincide, and which groups hold one or several
keys; the values themselves, the number of further groups and of further keys
in each stay arbitrary (rest markers)."""
from domain import *
from contracts import ATreeV, ACollV, rest, rest_count, mb_key, deep, norm, is_single, nonempty
from models_std import NONE, some
import engine
from engine import Bad, BadState, kept, root

SUITE = "tree"


class World:
    __slots__ = ("name", "m", "M", "groups", "k", "align")

    def __init__(self, name, m, M, groups, k, align):
        self.name, self.m, self.M, self.groups, self.k, self.align = name, m, M, groups, k, align


KG = [None] + [(b, e, a) for b in (0, 1, 2) for e in (0, 1) for a in (0, 1, 2) if b + e + a]
SIDE = {0: [()], 1: [(1,), (2,)], 2: [(1, 1), (2, 2), (1, 2), (2, 1)]}


def shapes(deep_level):
    """Yields (slots, name): slots is a list of ('g', n) | ('R',) | ('K', kg) plus
    the placements of m and M as (slot index or gap position, relation)."""
    for nb in (0, 1, 2):
        for bs in SIDE[nb]:
            for na in (0, 1, 2):
                for as_ in SIDE[na]:
                    if not deep_level and (bs in ((1, 2), (2, 1)) and as_ in ((1, 2), (2, 1))):
                        continue
                    for kg in KG:
                        yield bs, kg, as_


def m_options(bs, kg, as_):
    """Where the minimum's hi half may sit: ('gap', i) before slot i, or ('slot', i, rel)."""
    nb, na = len(bs), len(as_)
    K = nb
    if nb:
        return [("gap", 0), ("slot", 0, None)]
    o = [("gap", 0)]
    if kg is None:
        o += [("slot", K, "<"), ("slot", K, "="), ("slot", K, ">"), ("gap", K + 1)]
        if na:
            o.append(("slot", K + 1, None))
    else:
        b, e, a = kg
        o.append(("slot", K, "<"))
        if b == 0 and e == 0:
            o += [("slot", K, "="), ("slot", K, ">")]
    return o


def M_options(bs, kg, as_):
    nb, na = len(bs), len(as_)
    K = nb
    last = nb + na
    if na:
        return [("gap", last + 1), ("slot", last, None)]
    o = [("gap", K + 1)]
    if kg is None:
        o += [("slot", K, ">"), ("slot", K, "="), ("slot", K, "<"), ("gap", K)]
        if nb:
            o.append(("slot", K - 1, None))
    else:
        b, e, a = kg
        o.append(("slot", K, ">"))
        if a == 0 and e == 0:
            o += [("slot", K, "="), ("slot", K, "<")]
    return o


def rank(o):
    return o[1] * 2 - 1 if o[0] == "gap" else o[1] * 2


RELN = {"<": 0, "=": 1, ">": 2, None: 1}


def build(bs, kg, as_, mo, Mo, align, variant=None):
    """Construct a World, or None if inconsistent.  `variant`: for min and max in
    the same gap / same side of k: 'eq' hi halves equal, 'lt' different."""
    slots = [[] for _ in range(len(bs) + 1 + len(as_))]
    K = len(bs)
    mono = Mo is None
    interior = bool(bs or as_ or kg)
    if not mono:
        rm, rM = rank(mo), rank(Mo)
        if rm > rM:
            return None
        same = rm == rM
        if same and mo[0] == "slot":
            if mo[2] is not None and Mo[2] is not None:
                x, y = RELN[mo[2]], RELN[Mo[2]]
                if x > y or (x == y == 1):
                    return None
        if variant and not (same and mo[0] == "gap" and not interior):
            return None
        if same and mo[0] == "gap" and interior:
            return None
    elif interior or variant:
        return None
    # positions of slots: slot i at hi = 100*(i+1); gap before slot i at 100*i+50
    def hpos(o):
        return 100 * o[1] + 50 if o[0] == "gap" else 100 * (o[1] + 1)
    hm = hpos(mo)
    hM = None if mono else hpos(Mo)
    if not mono and mo[0] == "gap" and Mo[0] == "gap" and mo[1] == Mo[1]:
        if variant == "lt":
            hM += 10
    hk = 100 * (K + 1)
    # contents as token lists per hi position
    cont = {}

    def group(n, i):
        cont[100 * (i + 1)] = ["e"] if n == 1 else ["e", "r", "e"]
    for i, n in enumerate(bs):
        group(n, i)
    for i, n in enumerate(as_):
        group(n, K + 1 + i)
    ktok = []
    if kg:
        b, e, a = kg
        ktok = {0: [], 1: ["e"], 2: ["e", "r", "e"]}[b] + ["ke" if e else "k"] + {0: [], 1: ["e"], 2: ["e", "r", "e"]}[a]
    else:
        ktok = ["k"]
    cont[hk] = ktok
    cont.setdefault(hm, [])
    if hM is not None:
        cont.setdefault(hM, [])
    # insert m / M tokens
    def put(h, tok, o, first):
        l = cont[h]
        if h == hk:
            i = next(j for j, t in enumerate(l) if "k" in t)
            rel = o[2]
            if rel == "=":
                l[i] = l[i].replace("k", "k" + tok)
            elif rel == "<":
                # tok < k; m goes first, M goes just below k (nothing of the interior above it)
                l.insert(0 if first else i, tok)
            else:
                l.insert(i + 1 if first else len(l), tok)
        else:
            l.insert(0 if first else len(l), tok)
    put(hm, "m", mo, True)
    if hM is not None:
        put(hM, "M", Mo, False)
    m = M = k = None
    groups = []
    vid = [0]
    hs = sorted(cont)
    for si, h in enumerate(hs):
        base = {"same": 0, "inc": 1000 * si, "dec": -1000 * si}[align]
        items = []
        q = base
        prev = None
        toks = cont[h]
        for j, t in enumerate(toks):
            if t == "r":
                items.append(("R", q, q + 20))
                q += 20
                continue
            q = q + 10 if j and toks[j - 1] != "r" else q
            if "k" in t:
                k = term("key", h, q)
            if "m" in t:
                m = (term("key", h, q), term("val", "m"))
            if "M" in t:
                M = (term("key", h, q), term("val", "M"))
            if "e" in t:
                vid[0] += 1
                items.append(("e", term("lo", q), term("val", vid[0])))
        fin = []
        for it in items:
            if it[0] == "R":
                vid[0] += 1
                fin.append(rest((f"c{vid[0]}",), it[1], it[2], "lo", "val"))
            else:
                fin.append(it)
        if fin:
            groups.append((h, fin))
    # group rests between the two named groups of a side
    out = []
    for i, (h, c) in enumerate(groups):
        out.append(("e", h, tuple(c)))
        idx = h // 100 - 1
        if h % 100 == 0 and ((len(bs) == 2 and idx == 0) or (len(as_) == 2 and idx == K + 1)):
            out.append(("R", "gb" if idx == 0 and len(bs) == 2 else "ga", h, h + 100))
    name = f"{'.'.join(map(str, bs)) or '-'}|{'-' if kg is None else ''.join(map(str, kg))}|{'.'.join(map(str, as_)) or '-'} m{fmt(mo)} M{fmt(Mo)}{variant or ''} {align}"
    return World(name, m, M, tuple(out), k, align)


def fmt(o):
    if o is None:
        return "∅"
    return f"{'g' if o[0] == 'gap' else 's'}{o[1]}{(o[2] or '') if len(o) > 2 else ''}"


def worlds(aligns=("same", "inc", "dec"), deep_level=True):
    for bs, kg, as_ in shapes(deep_level):
        for mo in m_options(bs, kg, as_):
            if not (bs or as_ or kg):
                for al in aligns:
                    w = build(bs, kg, as_, mo, None, al)
                    if w:
                        yield w
            for Mo in M_options(bs, kg, as_):
                same_gap = mo[0] == "gap" and Mo[0] == "gap" and mo[1] == Mo[1]
                for va in (("eq", "lt") if same_gap and not (bs or as_ or kg) else (None,)):
                    for al in aligns:
                        w = build(bs, kg, as_, mo, Mo, al, va)
                        if w:
                            yield w


# ---------------------------------------------------------------- the model

class Content:
    """min, max and interior groups; groups: ('e', h, items) / ('R', id, lo, hi)."""

    def __init__(self, m, M, groups):
        self.m, self.M, self.groups = m, M, tuple(groups)

    def with_interior(self, k, v):
        h, lo = k[1], k[2]
        g, done = [], False
        for x in self.groups:
            if x[0] == "e" and x[1] == h:
                items, d2 = [], False
                for it in x[2]:
                    if it[0] == "e" and it[1][1] == lo:
                        items.append(("e", it[1], v))
                        d2 = True
                        continue
                    start = it[1][1] if it[0] == "e" else it[2]
                    if not d2 and start > lo:
                        items.append(("e", term("lo", lo), v))
                        d2 = True
                    items.append(it)
                if not d2:
                    items.append(("e", term("lo", lo), v))
                g.append(("e", h, tuple(items)))
                done = True
                continue
            if not done and (x[1] if x[0] == "e" else x[2]) > h:
                g.append(("e", h, (("e", term("lo", lo), v),)))
                done = True
            g.append(x)
        if not done:
            g.append(("e", h, (("e", term("lo", lo), v),)))
        return Content(self.m, self.M, g)

    def without_interior(self, k):
        g = []
        for x in self.groups:
            if x[0] == "e" and x[1] == k[1]:
                items = tuple(it for it in x[2] if not (it[0] == "e" and it[1][1] == k[2]))
                if items:
                    g.append(("e", x[1], items))
            else:
                g.append(x)
        return Content(self.m, self.M, g)

    def get(self, k):
        if self.m[0] == k:
            return self.m[1]
        if self.M and self.M[0] == k:
            return self.M[1]
        for x in self.groups:
            if x[0] == "e" and x[1] == k[1]:
                for it in x[2]:
                    if it[0] == "e" and it[1][1] == k[2]:
                        return it[2]
        return None

    def entries(self):
        """Named entries in order (rests are never adjacent to k)."""
        out = [self.m]
        for x in self.groups:
            if x[0] == "e":
                out += [(term("key", x[1], it[1][1]), it[2]) for it in x[2] if it[0] == "e"]
        if self.M:
            out.append(self.M)
        return out

    def first_interior(self):
        for x in self.groups:
            if x[0] == "e":
                it = x[2][0]
                return term("key", x[1], it[1][1]), it[2]
        return None

    def last_interior(self):
        for x in reversed(self.groups):
            if x[0] == "e":
                it = x[2][-1]
                return term("key", x[1], it[1][1]), it[2]
        return None

    def insert(self, k, v):
        old = self.get(k)
        if old is not None:
            return self.set(k, v), (k, old)
        kp = k[1:]
        if self.M is None:
            return (Content((k, v), self.m, ()) if kp < self.m[0][1:] else Content(self.m, (k, v), ())), None
        if kp < self.m[0][1:]:
            c = self.with_interior(self.m[0], self.m[1])
            return Content((k, v), self.M, c.groups), None
        if kp > self.M[0][1:]:
            c = self.with_interior(self.M[0], self.M[1])
            return Content(self.m, (k, v), c.groups), None
        return self.with_interior(k, v), None

    def set(self, k, v):
        if self.m[0] == k:
            return Content((k, v), self.M, self.groups)
        if self.M and self.M[0] == k:
            return Content(self.m, (k, v), self.groups)
        return self.with_interior(k, v)

    def remove(self, k):
        if self.m[0] == k:
            return self.remove_min()[0]
        if self.M[0] == k:
            return self.remove_max()[0]
        return self.without_interior(k)

    def remove_min(self):
        if self.M is None:
            return None, self.m
        f = self.first_interior()
        if f is None:
            return Content(self.M, None, ()), self.m
        c = self.without_interior(f[0])
        return Content(f, self.M, c.groups), self.m

    def remove_max(self):
        if self.M is None:
            return None, self.m
        f = self.last_interior()
        if f is None:
            return Content(self.m, None, ()), self.M
        c = self.without_interior(f[0])
        return Content(self.m, f, c.groups), self.M


def drop_empty_rest(x):
    return x


class Templates:
    """The representations of the states with one, two and more keys, obtained by
    interpreting from_monad and insert of the current source."""

    def __init__(self, prog):
        I = engine.new_run(prog)
        K = lambda h: term("key", h, h + 3)
        self.a, self.b, self.c = K(0), K(20), K(10)
        va, vb, vc = term("val", "ta"), term("val", "tb"), term("val", "tc")
        self.vals = (va, vb, vc)
        t = root(I, "tree.from_monad", self.a, va)
        self.mono = t
        cell = Cell(t, "tree")
        root(I, "tree.insert", Ref(cell), self.b, vb)
        self.pair = cell.x
        root(I, "tree.insert", Ref(cell), self.c, vc)
        self.full = cell.x
        self.numbers(I)
        self.ok = self.sane()

    def numbers(self, I):
        """Numbers the tree holds: how each follows from the number of keys (or of
        subtrees), learnt from trees with up to five keys."""
        self.num = {}
        if not any(isinstance(x, int) for t in (self.mono, self.pair, self.full) for x in leaves(t)):
            return
        rows = [(3, 1, self.full)]
        for n, more in enumerate(([(10, 20)], [(10, 20), (10, 30)], [(5, 1)], [(5, 1), (5, 9)])):
            cell = Cell(self.full, "tree")
            for h, lo in more:
                root(I, "tree.insert", Ref(cell), term("key", h, lo), term("val", "more"))
            rows.append((3 + len(more), 1 if more[0][0] == 10 else 2, cell.x))
        rows = [(n, g, dict(places(t))) for n, g, t in rows]
        for p, v in rows[0][2].items():
            if not isinstance(v, int):
                continue
            vs = [(n, g, d.get(p)) for n, g, d in rows]
            if any(not isinstance(x, int) for _, _, x in vs):
                raise Undecided("a number the tree holds is not understood")
            for kind, f in (("", lambda n, g: 0), ("keys", lambda n, g: n), ("subtrees", lambda n, g: g)):
                if len({x - f(n, g) for n, g, x in vs}) == 1:
                    self.num[p] = (kind, v - f(3, 1))
                    break
            else:
                raise Undecided("a number the tree holds is not understood")

    def count(self, c):
        n = 1 + (c.M is not None)
        for x in c.groups:
            if x[0] == "e":
                for it in x[2]:
                    n = lin_add(n, 1 if it[0] == "e" else rest_count(it))
            else:
                n = lin_add(n, Lin(0, ((("in", x[1]), 1),)))
        return n

    def groups(self, c):
        n = 0
        for x in c.groups:
            n = lin_add(n, 1 if x[0] == "e" else rest_count((x[0], (x[1],))))
        return n

    def sane(self):
        a, b = self.a, self.b
        ends = [{a, self.vals[0]}, {a, self.vals[0], b, self.vals[1]}, {a, self.vals[0], b, self.vals[1]}]
        ls = [[x for x in leaves(t)] for t in (self.mono, self.pair, self.full)]
        for l, w in zip(ls, ends):
            plain = [x for x in l if not isinstance(x, (ATreeV, ACollV, int))]
            extra = {y for k in w if k[0] == "key" for y in halves(k)}
            if not w <= set(plain) <= w | extra:
                return False
        ops = [x for x in ls[2] if isinstance(x, (ATreeV, ACollV))]
        return (len(ops) == 2 and {type(x) for x in ops} == {ATreeV, ACollV}
                and all(not isinstance(x, (ATreeV, ACollV)) for l in ls[:2] for x in l))

    def state(self, c):
        mp = {self.a: c.m[0], self.vals[0]: c.m[1], **dict(zip(halves(self.a), halves(c.m[0])))}
        if c.M is None:
            return subst(self.mono, mp, None, None)
        mp.update({self.b: c.M[0], self.vals[1]: c.M[1], **dict(zip(halves(self.b), halves(c.M[0])))})
        if not c.groups:
            return subst(self.pair, mp, None, None)
        si, ci = [], []
        for x in c.groups:
            if x[0] == "e":
                si.append(("e", term("hi", x[1]), UNIT))
                ci.append(("e", term("hi", x[1]), ATreeV("child", x[2])))
            else:
                si.append(rest((x[1],), x[2], x[3], "hi", "unit"))
                ci.append(rest((x[1],), x[2], x[3], "hi", "coll"))
        mp["num"] = {p: lin_add(d, self.count(c) if k == "keys" else self.groups(c) if k else 0) for p, (k, d) in self.num.items()}
        return subst(self.full, mp, ATreeV("sum", si), ACollV(ci))


def leaves(v):
    if isinstance(v, Agg):
        for x in v.f:
            yield from leaves(x)
    elif isinstance(v, BoxV):
        yield from leaves(v.x)
    else:
        yield v


def places(v, p=()):
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from places(x, p + (i,))
    elif isinstance(v, BoxV):
        yield from places(v.x, p + ("*",))
    else:
        yield p, v


def halves(k):
    return term("hi", k[1]), term("lo", k[2])


def subst(v, mp, summ, coll, p=()):
    if isinstance(v, Agg):
        return Agg(v.v, tuple(subst(x, mp, summ, coll, p + (i,)) for i, x in enumerate(v.f)), v.t)
    if isinstance(v, BoxV):
        return BoxV(subst(v.x, mp, summ, coll, p + ("*",)))
    if isinstance(v, ATreeV):
        return summ
    if isinstance(v, ACollV):
        return coll
    if isinstance(v, int):
        return mp.get("num", {}).get(p, v)
    return mp[v]


# ---------------------------------------------------------------- oracles

def show(c):
    if c is None:
        return "∅"
    return "{" + ", ".join(f"{k!r}:{v!r}" for k, v in c.entries()) + ("" if all(x[0] == "e" for x in c.groups) else ", …") + "}"


def expect_state(I, T, got, c, what):
    want = settle(I, deep(I, T.state(c)))
    got = settle(I, deep(I, got))
    if got == want:
        return
    # another representation of the same contents is acceptable if no operation
    # can tell it apart
    observe(I, got, c, what, T)
    raise Undecided(f"{what}: an unexpected but observationally equal state")


def observe(I, state, c, what, T):
    """Interpret every query on `state` and compare with the contents."""
    es = c.entries()
    solid = all(x[0] == "e" and all(i[0] == "e" for i in x[2]) for x in c.groups)

    def chk(op, r, want):
        got = None if r == NONE else (mb_key(I, r.f[0].f[0]), I.full(r.f[0].f[1]))
        if got != want:
            raise BadState(f"{what}; afterwards {op} gives {got!r} instead of {want!r} (contents should be {show(c)})")

    def q(op, *a):
        cell = Cell(state, "tree")
        return root(I, "tree." + op, Ref(cell), *a)
    for op, e in (("min_val", es[0]), ("max_val", es[-1])):
        chk(op, some(q(op)), e)
    mono = q("is_monad")
    if bool(mono) != (c.M is None):
        raise BadState(f"{what}; afterwards is_monad is {bool(mono)} for contents {show(c)}")
    try:
        check_hint(I, q("len_hint"), c, "len_hint", T)
    except Bad as e:
        raise BadState(f"{what}; afterwards {e} for contents {show(c)}")
    for i, (k, v) in enumerate(es):
        chk(f"find({k!r})", q("find", Ref(Cell(k))), (k, v))
        if solid:
            chk(f"predecessor({k!r})", q("predecessor", Ref(Cell(k))), es[i - 1] if i else None)
            chk(f"successor({k!r})", q("successor", Ref(Cell(k))), es[i + 1] if i + 1 < len(es) else None)
    for side in ("min", "max"):
        st, cc = state, c
        for _ in range(12):
            r = root(I, "tree.remove_" + side, st)
            cc2, kv = cc.remove_min() if side == "min" else cc.remove_max()
            if r.f[1] != Agg(None, kv):
                raise BadState(f"{what}; draining by remove_{side} then gives {r.f[1]!r} instead of {kv!r}")
            if (r.f[0] == NONE) != (cc2 is None):
                raise BadState(f"{what}; draining by remove_{side} then ends {'early' if r.f[0] == NONE else 'late'}")
            if cc2 is None:
                break
            st, cc = r.f[0].f[0], cc2
            if not solid:
                break


def expect_entry(I, r, want, what):
    if want is None:
        if r != NONE:
            raise Bad(f"{what} returned {mb_key(I, r.f[0].f[0])!r} instead of None")
        return
    if r == NONE:
        raise Bad(f"{what} returned None instead of {want[0]!r}")
    expect_pair(I, r.f[0], want, what)


def expect_pair(I, p, want, what):
    k, v = mb_key(I, p.f[0]), I.full(p.f[1])
    if k != want[0] or v != want[1]:
        raise Bad(f"{what} returned {k!r}:{v!r} instead of {want[0]!r}:{want[1]!r}")


FRESH = term("val", "fresh")


def query_answer(w, c, op):
    es = c.entries()
    kp = w.k[1:]
    if op == "find":
        return next(((k, v) for k, v in es if k == w.k), None)
    if op == "predecessor":
        l = [e for e in es if e[0][1:] < kp]
        return l[-1] if l else None
    l = [e for e in es if e[0][1:] > kp]
    return l[0] if l else None


def run_op(prog, T, w, op):
    """A body for engine.decide."""
    c = Content(w.m, w.M, w.groups)

    def cost(I, what, allowed):
        """At most one call into a structure over keys of half the width, and none
        where the callers of this operation count on a constant-time answer."""
        I.env["calls"] = len(I.events)
        total = sum(x for _, _, x in I.events)
        if total > allowed:
            I.env["cost_bad"] = f"{what} makes {total} non-constant recursive calls instead of at most {allowed}: " + ", ".join(f"{a}.{b}" for a, b, x in I.events if x)

    def body(I):
        st = T.state(c)
        cell = Cell(st, "tree")
        kref = Ref(Cell(w.k, "k"))
        what = f"{op}({w.k!r}) on {show(c)}" if op in KOPS else f"{op} on {show(c)}"
        base, mut = (op[:-4], True) if op.endswith("_mut") else (op, False)
        if base in ("find", "predecessor", "successor"):
            r = root(I, "tree." + op, Ref(cell), kref)
            ev = engine.split_events(I)
            want = query_answer(w, c, base)
            expect_entry(I, r, want, what)
            if mut and want is not None:
                I.store(r.f[0].f[1], FRESH)
                expect_state(I, T, cell.x, c.set(want[0], FRESH), f"writing through {what}")
            else:
                expect_state(I, T, cell.x, c, what)
        elif base in ("min_val", "max_val"):
            r = root(I, "tree." + op, Ref(cell))
            ev = engine.split_events(I)
            want = c.entries()[0 if base == "min_val" else -1]
            expect_pair(I, r, want, what)
            if mut:
                I.store(r.f[1], FRESH)
                expect_state(I, T, cell.x, c.set(want[0], FRESH), f"writing through {what}")
            else:
                expect_state(I, T, cell.x, c, what)
        elif op == "is_monad":
            r = root(I, "tree." + op, Ref(cell))
            ev = engine.split_events(I)
            if bool(r) != (c.M is None):
                raise Bad(f"{what} is {bool(r)}")
        elif op == "len_hint":
            r = root(I, "tree." + op, Ref(cell))
            ev = engine.split_events(I)
            check_hint(I, r, c, what, T)
        elif op == "into_monad":
            r = root(I, "tree." + op, st)
            ev = engine.split_events(I)
            if c.M is None:
                if r.v != 0 or r.f[0] != Agg(None, c.m):
                    raise Bad(f"{what} returned {r!r} instead of Ok({c.m!r})")
            else:
                if r.v != 1:
                    raise Bad(f"{what} returned Ok on several keys")
                kept(expect_state, I, T, r.f[0], c, what)
        elif op == "insert":
            r = root(I, "tree." + op, Ref(cell), w.k, FRESH)
            ev = engine.split_events(I)
            nc, old = c.insert(w.k, FRESH)
            if old is None:
                if r != NONE:
                    raise Bad(f"{what} returned {r!r} for a key that was absent")
            elif r == NONE:
                raise Bad(f"{what} returned None although the key was present")
            elif r.f[0] != Agg(None, old):
                raise Bad(f"{what} returned {r.f[0]!r} instead of the replaced {old!r}")
            expect_state(I, T, cell.x, nc, what)
        elif op == "remove":
            r = root(I, "tree." + op, st, kref)
            ev = engine.split_events(I)
            old = c.get(w.k)
            if old is None:
                if r.v != 1:
                    raise Bad(f"{what} returned Ok({r.f[0]!r}) for an absent key")
                kept(expect_state, I, T, r.f[0], c, what)
            else:
                if r.v != 0:
                    raise Bad(f"{what} returned Err although the key is present")
                o, kv = r.f[0].f
                if kv != Agg(None, (w.k, old)):
                    raise Bad(f"{what} returned the entry {kv!r} instead of {(w.k, old)!r}")
                nc = c.remove(w.k) if c.M is not None else None
                after(I, T, o, nc, what)
        else:
            r = root(I, "tree." + op, st)
            ev = engine.split_events(I)
            nc, kv = c.remove_min() if op == "remove_min" else c.remove_max()
            if r.f[1] != Agg(None, kv):
                raise Bad(f"{what} returned the entry {r.f[1]!r} instead of {kv!r}")
            after(I, T, r.f[0], nc, what)
        I.events = ev
        free = (op not in KOPS and not op.startswith("remove")
                or base in ("predecessor", "successor") and query_answer(w, c, base) is None
                or op in ("remove", "remove_min", "remove_max") and c.M is None)
        cost(I, what, 0 if free else 1)
        return None
    return body


def after(I, T, o, nc, what):
    if nc is None:
        if o != NONE:
            raise BadState(f"{what} left a tree although nothing remains")
    elif o == NONE:
        raise BadState(f"{what} left no tree although keys remain: {show(nc)}")
    else:
        expect_state(I, T, o.f[0], nc, what)


def check_hint(I, r, c, what, T):
    lo, hi = r.f
    n = I.nl(T.count(c))
    if not isinstance(lo, (int, Lin)) or hi != NONE and not isinstance(hi.f[0], (int, Lin)):
        raise Undecided("unknown length hint")
    if I.int_bounds(lin_add(n, I.nl(lo), -1))[0] < 0:
        raise Bad(f"{what}: lower bound {lo!r} can exceed the number of keys, {n!r}")
    if hi != NONE and I.int_bounds(lin_add(I.nl(hi.f[0]), n, -1))[0] < 0:
        raise Bad(f"{what}: upper bound {hi.f[0]!r} can be below the number of keys, {n!r}")


def settle(I, v):
    """Counts in terms of what this path has refined."""
    if isinstance(v, Agg):
        return Agg(v.v, tuple(settle(I, x) for x in v.f), v.t)
    if isinstance(v, BoxV):
        return BoxV(settle(I, v.x))
    return I.nl(v) if isinstance(v, Lin) else v


def built(T):
    """The states from_monad and insert build, observed through every query."""
    cases = (("from_monad", T.mono, Content((T.a, T.vals[0]), None, ())),
             ("from_monad+insert", T.pair, Content((T.a, T.vals[0]), (T.b, T.vals[1]), ())),
             ("from_monad+insert+insert", T.full, Content((T.a, T.vals[0]), (T.b, T.vals[1]),
                                                         (("e", T.c[1], (("e", term("lo", T.c[2]), T.vals[2]),)),))))
    for name, st, c in cases:
        def body(I, st=st, c=c, name=name):
            observe(I, st, c, name, T)
        yield SUITE, "from_monad" if st is T.mono else "insert", name, body, None, {"owned": True}, None


KOPS = ("find", "predecessor", "successor", "find_mut", "predecessor_mut", "successor_mut", "insert", "remove")
NOPS = ("min_val", "max_val", "min_val_mut", "max_val_mut", "is_monad", "len_hint", "into_monad", "remove_min", "remove_max")
