"""Contracts of the standard library and dependency functions that the crate
calls and whose bodies are not read (or are cheaper to summarise)."""
from fractions import Fraction
from domain import *

NONE = Agg(0, ())


def some(x):
    return Agg(1, (x,))


def ok(x):
    return Agg(0, (x,))


def err(x):
    return Agg(1, (x,))


def tup(*a):
    return Agg(None, tuple(a))


def boolv(b):
    return 1 if b else 0


def isint(v):
    return isinstance(v, (int, Bits, Lin))


def unwrap(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


STD = {}


def model(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


def width_of(I, f, i=0):
    return I.width(f["args"][i]) if f["args"] else (64, False)


@model("alloc::boxed::Box::new")
def _(I, f, a):
    return BoxV(a[0])


@model("alloc::boxed::Box::into_inner")
def _(I, f, a):
    return a[0].x if isinstance(a[0], BoxV) else NotImplemented


@model("core::convert::AsMut::as_mut", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
       "core::borrow::BorrowMut::borrow_mut", "alloc::boxed::Box::leak")
def box_view(I, f, a):
    """The contents of a box, reached through a reference to the box."""
    if isinstance(a[0], BoxV):
        return Ref(Cell(a[0]), ("*",))
    if isinstance(a[0], Ref) and f.get("selfpath", "").endswith("boxed::Box"):
        v = I.deref(a[0])
        if isinstance(v, BoxV):
            return Ref(a[0].c, tuple(a[0].p) + ("*",))
    return NotImplemented


@model("core::mem::replace")
def _(I, f, a):
    old = I.deref(a[0])
    I.store(a[0], a[1])
    return old


@model("core::mem::swap")
def _(I, f, a):
    x, y = I.deref(a[0]), I.deref(a[1])
    I.store(a[0], y)
    I.store(a[1], x)
    return UNIT


@model("core::mem::forget", "core::mem::drop", "core::ops::drop::Drop::drop", "core::intrinsics::cold_path", "core::intrinsics::assert_inhabited",
       "core::hint::assert_unchecked", "core::hint::black_box")
def _(I, f, a):
    return UNIT


@model("core::ptr::read", "core::intrinsics::read_via_copy")
def _(I, f, a):
    return I.deref(a[0])


@model("core::ptr::write", "core::intrinsics::write_via_move")
def _(I, f, a):
    I.store(a[0], a[1])
    return UNIT


# --- NonZero
@model("core::num::nonzero::NonZero::new")
def _(I, f, a):
    w = I.width(f["args"][0])[0]
    if I.pred_int("Eq", a[0], 0, w, False):
        return NONE
    return some(Agg(None, (Agg(None, (a[0],)),)))


@model("core::num::nonzero::NonZero::new_unchecked")
def _(I, f, a):
    w = I.width(f["args"][0])[0]
    if I.pred_int("Eq", a[0], 0, w, False):
        raise Panic("NonZero::new_unchecked(0)", I.where, tuple(I.stack))
    return Agg(None, (Agg(None, (a[0],)),))


@model("core::num::nonzero::NonZero::get")
def _(I, f, a):
    v = unwrap(I.full(a[0]))
    return v


@model("core::num::nonzero::NonZero::checked_add")
def _(I, f, a):
    v = unwrap(I.full(a[0]))
    r, o = I.arith("Add", v, a[1], 64, False)
    if o is None:
        o = I.pick(("ovf", "Add", v, a[1]), {0, 1}, "overflow")
    return NONE if o else some(Agg(None, (Agg(None, (r,)),)))


@model("core::num::nonzero::NonZero::saturating_add")
def _(I, f, a):
    v = unwrap(I.full(a[0]))
    r, o = I.arith("Add", v, a[1], 64, False)
    if o is None:
        o = I.pick(("ovf", "Add", v, a[1]), {0, 1}, "overflow")
    return Agg(None, (Agg(None, (((1 << 64) - 1) if o else r,)),))


# --- intrinsics
def arith_model(op, mode):
    def g(I, f, a):
        w, s = width_of(I, f)
        v, o = I.arith(op, a[0], a[1], w, s)
        if mode == "wrapping":
            if v is TOP and isinstance(a[0], (int, Lin)) and isinstance(a[1], (int, Lin)):
                return TOP
            return v
        if o is None:
            o = I.pick(("ovf", op, a[0], a[1]), {0, 1}, f"overflow of {op}")
        if mode == "with_overflow":
            return tup(v, o)
        if mode == "unchecked":
            if o:
                raise Panic(f"unchecked {op} overflows", I.where, tuple(I.stack))
            return v
        if mode == "saturating":
            if not o:
                return v
            if s:
                return TOP
            return (1 << w) - 1 if op != "Sub" else 0
    return g


for _op, _n in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul")):
    STD[f"intrinsic:wrapping_{_n}"] = arith_model(_op, "wrapping")
    STD[f"intrinsic:saturating_{_n}"] = arith_model(_op, "saturating")
    STD[f"intrinsic:unchecked_{_n}"] = arith_model(_op, "unchecked")
    STD[f"intrinsic:{_n}_with_overflow"] = arith_model(_op, "with_overflow")


@model("intrinsic:ctpop")
def _(I, f, a):
    if isinstance(a[0], (int, Bits)):
        r = popcount(a[0])
        return TOP if r is None else r
    return TOP


def ctz_like(lead):
    def g(I, f, a):
        w, _ = width_of(I, f)
        x = a[0]
        if x is TOP or isinstance(x, Lin):
            return TOP
        o, s, u = parts(x)
        sm = symmask(s, u)
        order = range(w) if not lead else range(w - 1, -1, -1)
        if lead:
            ph = (o | sm).bit_length() - 1
            if ph < 0:
                return w
            if (o >> ph) & 1:
                return w - 1 - ph
        else:
            al = o | sm
            if al == 0:
                return w
            pl = (al & -al).bit_length() - 1
            if (o >> pl) & 1:
                return pl
        # position not determined: enumerate (loses the link to the set, hence imprecise)
        cand = []
        for i in order:
            if ((o | sm) >> i) & 1:
                if (o >> i) & 1:
                    rest = mkbits(w, 0, [(b, sh, k & (~((1 << i) - 1) if lead else (1 << i) - 1), n) for b, sh, k, n in s])
                    if not I.bits_nonzero(rest):
                        cand.append(i if not lead else w - 1 - i)
                    break
                cand.append(i if not lead else w - 1 - i)
        else:
            if not I.bits_nonzero(x):
                cand.append(w)
        return I.pick(("ctz", lead, x), set(cand), f"lowest/highest set bit of {x!r}")
    return g


STD["intrinsic:cttz"] = ctz_like(False)
STD["intrinsic:ctlz"] = ctz_like(True)
STD["intrinsic:cttz_nonzero"] = ctz_like(False)
STD["intrinsic:ctlz_nonzero"] = ctz_like(True)


@model("intrinsic:raw_eq")
def _(I, f, a):
    return val_eq(I, I.deref(a[0]), I.deref(a[1]), f["args"][0])


def val_eq(I, x, y, ti):
    t = I.P.types[ti]
    if t["k"] in ("int", "uint", "bool", "char"):
        w, s = I.width(ti)
        return I.pred_int("Eq", x, y, w, s)
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.f) == len(y.f):
        if x.v != y.v:
            return 0
        if t["k"] == "array":
            ts = [t["to"]] * len(x.f)
        elif t["k"] == "tuple":
            ts = t["fields"]
        elif "variants" in t:
            ts = [q[1] for q in t["variants"][x.v or 0]["fields"]]
        else:
            raise Undecided("raw_eq")
        for p, q, s in zip(x.f, y.f, ts):
            if not val_eq(I, p, q, s):
                return 0
        return 1
    raise Undecided("raw_eq")


@model("intrinsic:transmute", "intrinsic:transmute_unchecked")
def _(I, f, a):
    return I.transmute(a[0], f["args"][0], f["args"][1])


def swap_bytes(w, x):
    if not isinstance(x, (int, Bits)):
        return TOP
    o, s, u = parts(x)
    n = w // 8
    ones, segs, unk = 0, [], 0
    for i in range(n):
        m, d = 0xff << (8 * i), 8 * (n - 1 - i) - 8 * i
        mv = (lambda v: v << d) if d >= 0 else (lambda v: v >> -d)
        ones |= mv(o & m)
        unk |= mv(u & m)
        segs += [(b, sh - d, mv(k & m), g) for b, sh, k, g in s if k & m]
    return mkbits(w, ones, segs, unk)


@model("intrinsic:bswap")
def _(I, f, a):
    return swap_bytes(width_of(I, f)[0], a[0])


@model("intrinsic:rotate_left", "intrinsic:rotate_right")
def _(I, f, a):
    w, _ = width_of(I, f)
    if not isinstance(a[0], (int, Bits)) or not isinstance(a[1], int):
        return TOP
    n = a[1] % w
    if f["name"].endswith("right"):
        n = (w - n) % w
    return b_or(w, b_shl(w, a[0], n), b_shr(w, a[0], w - n)) if n else a[0]


@model("intrinsic:integer_min", "intrinsic:integer_max", "core::intrinsics::integer_min", "core::intrinsics::integer_max")
def _(I, f, a):
    w, s = width_of(I, f)
    le = I.cmp_int(a[0], a[1], w, s) <= 0
    return a[0] if le == ("integer_min" in f["name"]) else a[1]


@model("intrinsic:three_way_compare")
def _(I, f, a):
    w, s = width_of(I, f)
    return Agg({-1: 0, 0: 1, 1: 2}[I.cmp_int(a[0], a[1], w, s)], ())


@model("intrinsic:size_of", "intrinsic:size_of_val", "intrinsic:min_align_of")
def _(I, f, a):
    return TOP


# What a caller's type parameter is like: it may be of any size and may need dropping or not, so each
# case is one some caller meets.  A value of size zero cannot be told from another, so what is found
# only there is not held against the code.
def of_param(I, f):
    t = I.P.types[f["args"][0]]
    return t["path"] if "abs::" in t.get("path", "") else None


def size_like(what, sizes):
    def g(I, f, a):
        t = of_param(I, f)
        if t is None:
            return TOP
        k = (what, t)
        if k not in I.memo:
            I.memo[k] = sizes[I.choose(len(sizes), f"{what} of {t}")]
            if not I.memo[k] and what == "size":
                I.imprecise.append(f"a {t} of size zero")
        return I.memo[k]
    return g


for _m in ("core::mem::", "std::mem::"):
    STD[_m + "size_of"] = size_like("size", [8, 1, 4096, 0])
    STD[_m + "size_of_val"] = size_like("size", [8, 1, 4096, 0])
    STD[_m + "align_of"] = size_like("alignment", [8, 1, 128])
    STD[_m + "align_of_val"] = size_like("alignment", [8, 1, 128])
    STD[_m + "needs_drop"] = size_like("drop", [1, 0])


@model("intrinsic:ub_checks")
def _(I, f, a):
    return 0


@model("intrinsic:likely", "intrinsic:unlikely", "intrinsic:black_box")
def _(I, f, a):
    return a[0]


@model("intrinsic:discriminant_value")
def _(I, f, a):
    return I.discr(I.deref(a[0]), f["args"][0])


@model("intrinsic:exact_div")
def _(I, f, a):
    return I.binop("Div", a[0], a[1], f["args"][0], f["args"][0])


@model("intrinsic:abort")
def _(I, f, a):
    raise Panic("abort", I.where, tuple(I.stack))


@model("intrinsic:unreachable")
def _(I, f, a):
    raise Panic("unreachable_unchecked reached", I.where, tuple(I.stack))


# --- Clone of arrays and tuples whose parts are plain values
@model("core::clone::Clone::clone")
def clone_any(I, f, a):
    st = f.get("selfs", "")
    t = I.P.types[f["self"]] if "self" in f else None
    if t is None and f["kind"] == "clone_shim":
        return clone_val(I, I.deref(a[0]))
    if f.get("abs"):
        return NotImplemented
    if t and t["k"] in ("array", "tuple", "int", "uint", "bool", "ref"):
        return clone_val(I, I.deref(a[0]))
    if t and t.get("path") == "alloc::boxed::Box":
        v = I.deref(a[0])
        if isinstance(v, BoxV):
            return BoxV(clone_val(I, v.x))
    return NotImplemented


def clone_val(I, v):
    if isinstance(v, Agg):
        return Agg(v.v, tuple(clone_val(I, x) for x in v.f), v.t)
    if isinstance(v, (int, Bits, Lin, Term, Ref)):
        return v
    if isinstance(v, Opq) and hasattr(v, "cloned"):
        return v.cloned(I)
    raise Undecided(f"clone of {v!r}")


# --- arrays: lexicographic order
@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def _(I, f, a):
    t = I.P.types[f["self"]] if "self" in f else None
    if t and t["k"] == "array":
        x, y = I.deref(a[0]), I.deref(a[1])
        for p, q in zip(x.f, y.f):
            if not (isinstance(p, Term) and isinstance(q, Term)):
                raise Undecided("array comparison")
            if p != q:
                r = Agg(0 if p[1:] < q[1:] else 2, ())
                return r if f["name"].endswith("Ord::cmp") else some(r)
        r = Agg(1, ())
        return r if f["name"].endswith("Ord::cmp") else some(r)
    return NotImplemented


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new",
       "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::Arguments::from_str_nonconst")
def _(I, f, a):
    for x in a:
        if isinstance(x, Ref) and isinstance(x.c.x, Str):
            return x
    return TOP


@model("core::hash::Hash::hash")
def _(I, f, a):
    """An integer fed to a hasher: the log of what was fed grows."""
    v = I.full(a[0])
    if not isint(v) and not isinstance(v, Term):
        return NotImplemented
    r = a[1]
    while isinstance(I.deref(r), Ref):
        r = I.deref(r)
    I.store(r, Term(("fed", I.deref(r), v)))
    return UNIT
