"""Abstract values.

Integers are a Python int (constant, unsigned bit pattern), `Bits` (known bits
plus the provenance of each unknown bit), `Lin` (an affine form over named
non-negative quantities, exact as a mathematical integer) or TOP.
Everything else is an immutable aggregate, a reference to a place, or an opaque
term whose only meaning is the contract of the trait it implements.
"""


class Undecided(Exception):
    """The analysis cannot represent something; never reported as a violation."""
    stack = None


class Panic(Exception):
    def __init__(self, what, where, stack=()):
        super().__init__(what)
        self.what, self.where, self.stack = what, where, stack


class Top:
    __slots__ = ()

    def __repr__(self):
        return "⊤"


TOP = Top()


class Agg:
    __slots__ = ("v", "f", "t")

    def __init__(self, v, f, t=None):
        self.v, self.f, self.t = v, f, t

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return f"{self.v if self.v is not None else ''}({', '.join(map(repr, self.f))})"


UNIT = Agg(None, ())


class Cell:
    __slots__ = ("x", "name")

    def __init__(self, x=None, name=None):
        self.x, self.name = x, name


class Ref:
    __slots__ = ("c", "p", "n")

    def __init__(self, c, p=(), n=None):
        self.c, self.p, self.n = c, p, n

    def __eq__(self, o):
        return isinstance(o, Ref) and self.c is o.c and self.p == o.p

    def __hash__(self):
        return hash((id(self.c), self.p))

    def __repr__(self):
        return f"&{self.c.name or ''}{list(self.p) if self.p else ''}"


class BoxV:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, BoxV) and self.x == o.x

    def __hash__(self):
        return hash(("box", self.x))

    def __repr__(self):
        return f"box {self.x!r}"


class FnV:
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee

    def __eq__(self, o):
        return isinstance(o, FnV) and self.callee == o.callee

    def __hash__(self):
        return hash("fn")

    def __repr__(self):
        return f"fn {self.callee.get('decl')}"


class PyFn:
    """A callable the analyzer itself passes in (a caller's closure, by contract)."""
    __slots__ = ("f", "name")

    def __init__(self, f, name):
        self.f, self.name = f, name

    def __repr__(self):
        return f"<{self.name}>"


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Term(tuple):
    """An opaque key/half/value: (kind, data...)."""
    __slots__ = ()

    def __repr__(self):
        return f"{self[0]}{list(self[1:])}"


def term(*a):
    return Term(a)


class Opq:
    """Base of opaque structured objects.  Immutable; `sub`/`with_sub` give the
    places inside them that references may designate."""
    __slots__ = ()

    def sub(self, sel):
        raise Undecided(f"no place {sel} in {type(self).__name__}")

    def with_sub(self, sel, v):
        raise Undecided(f"no place {sel} in {type(self).__name__}")


# ---------------------------------------------------------------- integers

class Bits:
    __slots__ = ("w", "ones", "segs", "unk")

    def __init__(self, w, ones, segs, unk):
        self.w, self.ones, self.segs, self.unk = w, ones, segs, unk

    def __eq__(self, o):
        return (isinstance(o, Bits) and self.w == o.w and self.ones == o.ones
                and self.unk == o.unk and self.unk == 0 and self.segs == o.segs)

    def __hash__(self):
        return hash((self.w, self.ones, self.segs))

    def __repr__(self):
        return f"bits{self.w}[{self.ones:#x} {self.segs} ?{self.unk:#x}]"


def mkbits(w, ones, segs, unk=0):
    m = (1 << w) - 1
    ones &= m
    unk &= m
    d = {}
    for b, s, k, n in segs:
        k &= m
        if k:
            d[(b, s, n)] = d.get((b, s, n), 0) | k
    if not d and not unk:
        return ones
    return Bits(w, ones, tuple(sorted((b, s, k, n) for (b, s, n), k in d.items())), unk)


def parts(x):
    """(ones, segs, unk) of an int or Bits."""
    if isinstance(x, int):
        return x, (), 0
    if isinstance(x, Bits):
        return x.ones, x.segs, x.unk
    return None


def symmask(segs, unk):
    m = unk
    for _, _, k, _ in segs:
        m |= k
    return m


def b_not(w, a):
    o, s, u = parts(a)
    m = (1 << w) - 1
    sm = symmask(s, u)
    return mkbits(w, m & ~o & ~sm, [(b, sh, k, not n) for b, sh, k, n in s], u)


def b_and(w, a, b):
    ao, asg, au = parts(a)
    bo, bsg, bu = parts(b)
    asm, bsm = symmask(asg, au), symmask(bsg, bu)
    ones = ao & bo
    segs = [(x, sh, k & bo, n) for x, sh, k, n in asg] + [(x, sh, k & ao, n) for x, sh, k, n in bsg]
    unk = (au & bo) | (bu & ao)
    both = asm & bsm
    if both:
        for x, sh, k, n in asg:
            for y, sh2, k2, n2 in bsg:
                c = k & k2
                if c:
                    if x == y and sh == sh2:
                        if n == n2:
                            segs.append((x, sh, c, n))
                    else:
                        unk |= c
                    both &= ~c
        unk |= both
    return mkbits(w, ones, segs, unk)


def b_or(w, a, b):
    return b_not(w, b_and(w, b_not(w, a), b_not(w, b)))


def b_xor(w, a, b):
    ao, asg, au = parts(a)
    bo, bsg, bu = parts(b)
    asm, bsm = symmask(asg, au), symmask(bsg, bu)
    m = (1 << w) - 1
    ones = (ao ^ bo) & ~asm & ~bsm & m
    segs, unk = [], 0
    for sg, osm, oo in ((asg, bsm, bo), (bsg, asm, ao)):
        for x, sh, k, n in sg:
            segs.append((x, sh, k & ~osm & oo, not n))
            segs.append((x, sh, k & ~osm & ~oo, n))
    unk |= (au & ~bsm) | (bu & ~asm)
    both = asm & bsm
    for x, sh, k, n in asg:
        for y, sh2, k2, n2 in bsg:
            c = k & k2
            if c and x == y and sh == sh2:
                if n != n2:
                    ones |= c
                both &= ~c
    unk |= both
    return mkbits(w, ones, segs, unk)


def b_shl(w, a, n):
    o, s, u = parts(a)
    return mkbits(w, o << n, [(x, sh - n, k << n, g) for x, sh, k, g in s], u << n)


def b_shr(w, a, n, signed=False):
    o, s, u = parts(a)
    if signed and n:
        top = 1 << (w - 1)
        if symmask(s, u) & top:
            hi = ((1 << n) - 1) << (w - n)
            return mkbits(w, o >> n, [(x, sh + n, k >> n, g) for x, sh, k, g in s], (u >> n) | hi)
        if o & top:
            o |= ((1 << n) - 1) << w
    return mkbits(w, o >> n, [(x, sh + n, k >> n, g) for x, sh, k, g in s], u >> n)


def b_add(w, a, b, carry=0):
    """Ripple add, exact where carries are determined.  Returns (value, carry|None)."""
    if isinstance(a, int) and isinstance(b, int):
        r = a + b + carry
        return r & ((1 << w) - 1), r >> w
    ao, asg, au = parts(a)
    bo, bsg, bu = parts(b)
    asm, bsm = symmask(asg, au), symmask(bsg, bu)
    ones, segs, unk = 0, [], 0

    def seg_at(sg, u, bit):
        for x, sh, k, n in sg:
            if k & bit:
                return (x, sh, bit, n)
        return None
    c = carry
    for i in range(w):
        bit = 1 << i
        av = None if asm & bit else (1 if ao & bit else 0)
        bv = None if bsm & bit else (1 if bo & bit else 0)
        cv = c
        known = [v for v in (av, bv, cv) if v is not None]
        if len(known) == 3:
            t = sum(known)
            if t & 1:
                ones |= bit
            c = t >> 1
        elif len(known) == 2 and cv is not None:
            sg = seg_at(asg, au, bit) if av is None else seg_at(bsg, bu, bit)
            t = sum(known)
            if t == 0:
                c = 0
                if sg:
                    segs.append(sg)
                else:
                    unk |= bit
            elif t == 2:
                c = 1
                if sg:
                    segs.append(sg)
                else:
                    unk |= bit
            else:
                # x + 1 : result ~x, carry x
                if sg:
                    segs.append((sg[0], sg[1], bit, not sg[3]))
                else:
                    unk |= bit
                c = None
        else:
            unk |= bit
            if len(known) == 2 and known[0] == known[1]:
                c = known[0]
            else:
                c = None
    return mkbits(w, ones, segs, unk), c


def b_sub(w, a, b):
    """Returns (value, borrow|None)."""
    if isinstance(a, int) and isinstance(b, int):
        r = a - b
        return r & ((1 << w) - 1), 1 if r < 0 else 0
    v, c = b_add(w, a, b_not(w, b), 1)
    return v, None if c is None else 1 - c


def b_ext(fw, tw, signed, a):
    if tw <= fw:
        o, s, u = parts(a)
        return mkbits(tw, o, s, u)
    o, s, u = parts(a)
    if signed:
        top = 1 << (fw - 1)
        hi = ((1 << tw) - 1) & ~((1 << fw) - 1)
        if o & top:
            o |= hi
        elif symmask(s, u) & top:
            u |= hi
    return mkbits(tw, o, s, u)


class Lin:
    """c + sum(coef * sym).  Popcount symbols are ('pc', base, mask)."""
    __slots__ = ("c", "ts")

    def __init__(self, c, ts):
        self.c, self.ts = c, ts

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.ts == o.ts

    def __hash__(self):
        return hash((self.c, self.ts))

    def __repr__(self):
        s = []
        for k, v in self.ts:
            n = f"|{k[1]}|" if k[0] == "pc" else str(k[0] if len(k) == 1 else k)
            s.append((f"{v}*" if v != 1 else "") + n)
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s)


def _refine(items):
    """Disjoint (mask, coef) pieces of one base, merged by coefficient."""
    pieces = []
    for m, c in items:
        new = []
        for pm, pc in pieces:
            i = pm & m
            if i:
                new.append((i, pc + c))
                if pm & ~i:
                    new.append((pm & ~i, pc))
                m &= ~i
            else:
                new.append((pm, pc))
        if m:
            new.append((m, c))
        pieces = new
    by = {}
    for m, c in pieces:
        if c:
            by[c] = by.get(c, 0) | m
    return by


def mklin(c, terms):
    d, pcs = {}, {}
    for k, v in terms:
        if k[0] == "pc":
            pcs.setdefault(k[1], []).append((k[2], v))
        else:
            d[k] = d.get(k, 0) + v
    for b, items in pcs.items():
        for co, m in _refine(items).items():
            if m:
                d[("pc", b, m)] = co
    ts = tuple(sorted(((k, v) for k, v in d.items() if v), key=repr))
    if not ts:
        return c
    return Lin(c, ts)


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin(x, ())
    return None


def lin_add(a, b, k=1):
    a, b = lin(a), lin(b)
    return mklin(a.c + k * b.c, a.ts + tuple((s, k * v) for s, v in b.ts))


def sym(name):
    return Lin(0, (((name,), 1),))


def popcount(x):
    o, s, u = parts(x)
    if u:
        return None
    c = bin(o).count("1")
    ts = []
    for b, sh, k, n in s:
        m = k << sh if sh >= 0 else k >> -sh
        if n:
            c += bin(k).count("1")
            ts.append((("pc", b, m), -1))
        else:
            ts.append((("pc", b, m), 1))
    return mklin(c, ts)
