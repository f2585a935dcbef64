"""Abstract interpreter over the dumped MIR.

One `Run` follows one path; wherever the abstract state leaves a question open
it asks `choose`, and the driver (`explore`) enumerates every combination of
answers.  A choice is *exact* when each alternative is a genuine case of the
partition (a contract's nondeterminism) and *imprecise* when the domain merely
lost the information; only paths without imprecise choices can convict.
"""
import json
import os
import sys
import traceback
from domain import *

sys.setrecursionlimit(20000)

STEP_LIMIT = 400000
PANIC_FNS = ("core::panicking::", "core::option::expect_failed", "core::option::unwrap_failed",
             "core::result::unwrap_failed", "core::slice::index::slice_", "alloc::raw_vec::handle_error",
             "core::cell::panic_", "core::num::int_log10::panic", "std::panicking::", "core::str::slice_error_fail")


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types, self.fns = d["types"], d["fns"]
        self.api = d["api"]
        self.roots = {n.replace("::", "."): f for n, f in d["roots"]}
        for t in self.types:
            vs = t.get("variants")
            if vs and vs[0].get("discr") is not None:
                t["dmap"] = [int(v["discr"]) for v in vs]
        self.dtors = [t["s"] for t in self.types if t.get("has_dtor") and t.get("crate") == "veb_tree"]
        for i, f in enumerate(self.fns):
            f["id"] = i
            if "body" in f:
                self.mark_aliases(f["body"])
            if "self" in f:
                st = self.types[f["self"]]
                f["selfpath"] = st.get("path") or st["k"]
                f["selfs"] = st["s"]
        memo = {}
        self.only = [self.single(i, memo) for i in range(len(self.types))]

    def single(self, ti, memo):
        """The value of a type that has exactly one (such as Option<!>): reading
        it needs no assignment, and the compiler drops those."""
        if ti in memo:
            return memo[ti]
        memo[ti] = None
        t = self.types[ti]
        if t["k"] == "tuple":
            r = self.alone(None, t["fields"], memo, None)
        elif t["k"] == "fndef":
            r = FnV(t["callee"])
        elif t["k"] in ("struct", "enum") and t.get("variants") is not None:
            vs = [(i, [x for _, x in v["fields"]]) for i, v in enumerate(t["variants"])]
            if t["k"] == "enum":
                vs = [v for v in vs if not any(self.types[x]["k"] == "never" for x in v[1])]
            r = None
            if len(vs) == 1:
                r = self.alone(vs[0][0] if t["k"] == "enum" else None, vs[0][1], memo, ti)
        else:
            r = None
        memo[ti] = r
        return r

    def alone(self, v, fields, memo, ti):
        fs = [self.single(x, memo) for x in fields]
        return None if any(x is None for x in fs) else Agg(v, tuple(fs), ti)

    @staticmethod
    def mark_aliases(body):
        """Copies of a box made to reach its pointer alias the box (`a`); any other
        copy of a box is a move that an optimisation turned into a copy."""
        ptr = set()
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and s[2][1] in ("BoxDerefTransmute", "Transmute"):
                    o = s[2][2]
                    if o[0] in "cm" and len(o[1]) > 1 and o[1][1] == 0:
                        ptr.add(o[1][0])
        if ptr:
            for b in body["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and len(s[1]) == 1 and s[1][0] in ptr and s[2][0] == "use" and s[2][1][0] == "c":
                        s[2][1][0] = "a"


class Run:
    def __init__(self, prog, models, script=(), bounds=None, nonempty=None):
        self.P = prog
        self.models = models
        self.contracts = None
        self.script = list(script)
        self.pos = 0
        self.trace = []        # (taken, n, label, imprecise)
        self.imprecise = []
        self.memo = {}
        self.steps = 0
        self.stack = []
        self.active = []                      # (function, arguments if plain values)
        self.where = "?"
        self.bounds = dict(bounds or {})
        self.nonempty = dict(nonempty or {})
        self.seen_fns = set()
        self.order = []
        self.events = []
        self.used = set()
        self.env = {}
        self.subst = {}

    # -------------------------------------------------------------- choices
    def choose(self, n, label, imprecise=False):
        if n <= 1:
            return 0
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = 0
            self.script.append(0)
        self.pos += 1
        self.trace.append((v, n, label, imprecise))
        if imprecise:
            self.imprecise.append(f"{label} at {self.where}")
        return v

    def pick(self, key, options, label):
        """Imprecise choice, consistent along the path."""
        options = sorted(options)
        if key in self.memo:
            return self.memo[key]
        v = options[self.choose(len(options), label, True)]
        self.memo[key] = v
        return v

    def trace_outcome(self):
        """The outcome the contract of a caller-supplied removal chose."""
        for v, n, lab, imp in self.trace:
            if "removal" in lab:
                return v
        raise Undecided("the removal was not run")

    # ------------------------------------------------------------- integers
    def nl(self, x):
        """An affine form with the quantities this path has refined replaced."""
        while isinstance(x, Lin) and self.subst and any(k in self.subst for k, _ in x.ts):
            r = Lin(x.c, ())
            for k, v in x.ts:
                s = self.subst.get(k)
                r = lin_add(r, mklin(0, ((k, v),)) if s is None else lin_add(0, s, v))
            x = r
        return x

    def sym_bounds(self, k):
        if k[0] == "pc":
            full = self.nonempty.get(k[1])
            lo = 1 if full is not None and full & ~k[2] == 0 else 0
            return lo, bin(k[2]).count("1")
        return self.bounds.get(k) or self.bounds.get(k[0], (0, 1 << 40))

    def int_bounds(self, x, w=None):
        if isinstance(x, int):
            return x, x
        if isinstance(x, Lin):
            lo = hi = x.c
            for k, v in x.ts:
                a, b = self.sym_bounds(k)
                lo += v * (a if v > 0 else b)
                hi += v * (b if v > 0 else a)
            return lo, hi
        if isinstance(x, Bits):
            sm = symmask(x.segs, x.unk)
            lo = x.ones
            if lo == 0 and self.bits_nonzero(x):
                lo = 1
            return lo, x.ones | sm
        return None

    def bits_nonzero(self, x):
        if isinstance(x, int):
            return x != 0
        if x.ones:
            return True
        for b, sh, k, n in x.segs:
            full = self.nonempty.get(b)
            if full is not None and not n:
                m = k << sh if sh >= 0 else k >> -sh
                if full & ~m == 0:
                    return True
        return False

    def cmp_set(self, a, b, w, signed):
        """Possible orderings of two integers."""
        if isinstance(a, int) and isinstance(b, int):
            if signed:
                h = 1 << (w - 1)
                a, b = a ^ h, b ^ h
            return {(a > b) - (a < b)}
        if a is TOP or b is TOP or not isinstance(a, (int, Bits, Lin)) or not isinstance(b, (int, Bits, Lin)):
            return {-1, 0, 1}
        if isinstance(a, Lin) or isinstance(b, Lin):
            a, b = self.nl(a), self.nl(b)
            if isinstance(a, Bits) or isinstance(b, Bits):
                la, lb = self.int_bounds(a), self.int_bounds(b)
                r = {-1, 0, 1}
                if la[0] > lb[1]:
                    r = {1}
                elif la[1] < lb[0]:
                    r = {-1}
                return r
            d = lin_add(a, b, -1)
            lo, hi = self.int_bounds(d)
            r = set()
            if lo < 0:
                r.add(-1)
            if hi > 0:
                r.add(1)
            if lo <= 0 <= hi:
                r.add(0)
            return r
        if signed:
            h = 1 << (w - 1)
            a, b = b_xor(w, a, h), b_xor(w, b, h)
        x = b_xor(w, a, b)
        if x == 0 and isinstance(x, int):
            return {0}
        r = {-1, 0, 1}
        if isinstance(x, int) or x.ones or self.bits_nonzero(x):
            r.discard(0)
        xo, xs, xu = parts(x)
        if xo:
            p = xo.bit_length() - 1
            if symmask(xs, xu) >> (p + 1) == 0:
                ao, asg, au = parts(a)
                if not (symmask(asg, au) >> p) & 1:
                    return {1 if (ao >> p) & 1 else -1}
        la, lb = self.int_bounds(a), self.int_bounds(b)
        if la[0] >= lb[1]:
            r.discard(-1)
        if la[1] <= lb[0]:
            r.discard(1)
        return r or {0}

    def cmp_int(self, a, b, w, signed, among=None):
        s = self.cmp_set(a, b, w, signed)
        if len(s) == 1:
            return next(iter(s))
        key = ("cmp", a, b, signed) if not (a is TOP or b is TOP) else ("cmp", len(self.trace), self.steps)
        r = self.pick(key, s, f"compare {a!r} with {b!r}")
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
                d = lin_add(self.nl(a), self.nl(b), -1)
                self.learn(d, *{-1: (-BIG, -1), 0: (0, 0), 1: (1, BIG)}[r])
        return r

    def learn(self, d, lo, hi):
        """This path knows lo <= d <= hi."""
        if not isinstance(d, Lin):
            return
        for k, v in d.ts:
            if k[0] == "pc" or v not in (1, -1):
                continue
            a, b = self.sym_bounds(k)
            ol, oh = self.int_bounds(lin_add(d, mklin(0, ((k, v),)), -1))
            # lo <= v*k + other <= hi
            l, h = lo - oh, hi - ol
            if v < 0:
                l, h = -h, -l
            l, h = max(a, l), min(b, h)
            if l > h:
                raise Infeasible()
            if (l, h) != (a, b):
                self.bounds[k] = (l, h)
                if l == h:
                    self.subst[k] = l

    def pred_int(self, op, a, b, w, signed):
        s = self.cmp_set(a, b, w, signed)
        f = {"Eq": lambda c: c == 0, "Ne": lambda c: c != 0, "Lt": lambda c: c < 0,
             "Le": lambda c: c <= 0, "Gt": lambda c: c > 0, "Ge": lambda c: c >= 0}[op]
        rs = {f(c) for c in s}
        if len(rs) == 1:
            return 1 if rs.pop() else 0
        return 1 if f(self.cmp_int(a, b, w, signed)) else 0

    def width(self, ti):
        t = self.P.types[ti]
        k = t["k"]
        if k in ("int", "uint"):
            return t["bits"], k == "int"
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        return 64, False

    def fit(self, x, w):
        """A Lin as a w-bit unsigned value: (value, overflowed)."""
        lo, hi = self.int_bounds(x)
        if lo >= 0 and hi < (1 << w):
            return x, 0
        if hi < 0 or lo >= (1 << w):
            return TOP, 1
        if self.pick(("ovf", x), {0, 1}, f"overflow of {x!r}"):
            self.learn(x, *((-BIG, -1) if lo < 0 and hi < (1 << w) else (1 << w, BIG) if lo >= 0 else (-BIG, BIG)))
            return TOP, 1
        self.learn(x, 0, (1 << w) - 1)
        return x, 0

    def arith(self, op, a, b, w, signed):
        """(value, overflow) for Add/Sub/Mul."""
        if a is TOP or b is TOP:
            return TOP, None
        if isinstance(a, int) and isinstance(b, int):
            if signed:
                h = 1 << (w - 1)
                a, b = (a ^ h) - h, (b ^ h) - h
            r = a + b if op == "Add" else a - b if op == "Sub" else a * b
            m = (1 << w) - 1
            if signed:
                return r & m, 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1
            return r & m, 0 if 0 <= r <= m else 1
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Bits) or isinstance(b, Bits) or signed:
                return TOP, None
            if op == "Mul":
                if isinstance(a, int):
                    a, b = b, a
                if not isinstance(b, int):
                    return TOP, None
                r = mklin(a.c * b, tuple((k, v * b) for k, v in a.ts))
            else:
                r = lin_add(a, b, 1 if op == "Add" else -1)
            if isinstance(r, int):
                return r & ((1 << w) - 1), 0 if 0 <= r < (1 << w) else 1
            return self.fit(r, w)
        if op == "Mul":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b and b & (b - 1) == 0:
                n = b.bit_length() - 1
                o, s, u = parts(a)
                hi = (o | symmask(s, u)) >> (w - n) if n else 0
                return b_shl(w, a, n), (0 if not hi and not signed else None)
            return TOP, None
        if op == "Add":
            v, c = b_add(w, a, b)
        else:
            v, c = b_sub(w, a, b)
            lim = (self.int_bounds(a), self.int_bounds(b))
            if c is None and lim[0][0] >= lim[1][1]:
                c = 0
        if signed:
            c = self.signed_ovf(op, a, b, v, w)
        return v, c

    def signed_ovf(self, op, a, b, v, w):
        h = 1 << (w - 1)

        def sgn(x):
            o, s, u = parts(x)
            return None if symmask(s, u) & h else (1 if o & h else 0)
        sa, sb, sv = sgn(a), sgn(b), sgn(v)
        if op == "Sub" and sb is not None:
            sb = 1 - sb
        if sa is not None and sb is not None:
            if sa != sb and op == "Add":
                return 0
            if sv is not None:
                return 1 if sa == sb and sv != sa else 0
        return None

    def binop(self, op, a, b, t1, t2):
        w, signed = self.width(t1)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Ref) and isinstance(b, Ref):
                if op == "Eq":
                    return 1 if a == b else 0
                if op == "Ne":
                    return 0 if a == b else 1
                raise Undecided("pointer comparison")
            return self.pred_int(op, a, b, w, signed)
        if op == "Cmp":
            return Agg({-1: 0, 0: 1, 1: 2}[self.cmp_int(a, b, w, signed)], ())
        ov = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v, c = self.arith(base, a, b, w, signed)
            if ov:
                if c is None:
                    c = self.pick(("ovf", base, a, b) if not (a is TOP or b is TOP) else ("o", self.steps), {0, 1}, f"overflow of {a!r} {base} {b!r}")
                return Agg(None, (v, c))
            return v
        if a is TOP or b is TOP:
            return TOP
        if op == "Offset" and isinstance(a, Ref) and isinstance(b, int):
            p = tuple(a.p)
            if p and isinstance(p[-1], tuple) and p[-1][0] == "i" and isinstance(p[-1][1], int):
                b -= (1 << 64) if b >> 63 else 0
                return Ref(a.c, p[:-1] + (("i", p[-1][1] + b),))
        if base in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, Lin) or isinstance(b, Lin):
                if base == "BitAnd":
                    if isinstance(a, int):
                        a, b = b, a
                    if isinstance(b, int) and b & (b + 1) == 0 and self.int_bounds(a)[1] <= b:
                        return a
                return TOP
            return {"BitAnd": b_and, "BitOr": b_or, "BitXor": b_xor}[base](w, a, b)
        if base in ("Shl", "Shr"):
            if not isinstance(b, int) or isinstance(a, Lin):
                return TOP
            w2, s2 = self.width(t2)
            if s2 and b >> (w2 - 1):
                b -= 1 << w2
            b &= w - 1 if w & (w - 1) == 0 else 0xffff
            return b_shl(w, a, b) if base == "Shl" else b_shr(w, a, b, signed)
        if base in ("Div", "Rem"):
            if isinstance(b, int) and b:
                if isinstance(a, int):
                    if signed:
                        h = 1 << (w - 1)
                        sa, sb = (a ^ h) - h, (b ^ h) - h
                        q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                        return (q if base == "Div" else sa - q * sb) & ((1 << w) - 1)
                    return a // b if base == "Div" else a % b
                if isinstance(a, Bits) and b & (b - 1) == 0 and not signed:
                    return b_shr(w, a, b.bit_length() - 1) if base == "Div" else b_and(w, a, b - 1)
                if isinstance(a, Lin) and not signed:
                    lo, hi = self.int_bounds(a)
                    if hi < b:
                        return 0 if base == "Div" else a
            return TOP
        raise Undecided(f"binary operator {op}")

    def unop(self, op, a, ti):
        w, signed = self.width(ti)
        if op == "Not":
            if a is TOP or isinstance(a, Lin):
                return TOP
            return b_not(w, a)
        if op == "Neg":
            if isinstance(a, int):
                return (-a) & ((1 << w) - 1)
            return TOP
        if op == "PtrMetadata":
            return self.length(a)
        raise Undecided(f"unary operator {op}")

    def length(self, r):
        v = self.deref(r) if isinstance(r, Ref) else r
        if isinstance(v, Agg):
            return len(v.f)
        if isinstance(v, Str):
            return len(v.s)
        if isinstance(v, Opq) and hasattr(v, "length"):
            return v.length()
        raise Undecided(f"length of {v!r}")

    # --------------------------------------------------------------- places
    def step_in(self, cell, path, v, e):
        if isinstance(e, int):
            if isinstance(v, Agg):
                if e >= len(v.f):
                    raise Undecided(f"field {e} of {v!r}")
                return v.f[e]
            if isinstance(v, BoxV):
                return Ref(cell, tuple(path) + ("*",))
            if isinstance(v, Ref):
                return v
            raise Undecided(f"field {e} of {v!r}")
        if e == "*":
            if isinstance(v, BoxV):
                return v.x
            raise Undecided(f"deref of {v!r}")
        k = e[0]
        if k == "ss":
            if isinstance(v, Agg):
                return Agg(None, v.f[e[1]:e[2]])
            raise Undecided(f"subslice of {v!r}")
        if k == "i":
            if isinstance(v, Agg):
                if isinstance(e[1], int):
                    if not 0 <= e[1] < len(v.f):
                        raise Undecided("element outside its array")
                    return v.f[e[1]]
                raise Undecided("symbolic index into a concrete array")
            if isinstance(v, Opq):
                return v.sub(e)
        if k == "s" and isinstance(v, Opq):
            return v.sub(e)
        raise Undecided(f"projection {e} of {v!r}")

    def read(self, cell, path):
        v = cell.x
        if v is None:
            raise Undecided("read of an uninitialised place")
        for i, e in enumerate(path):
            v = self.step_in(cell, path[:i], v, e)
        return v

    def deref(self, r):
        if not isinstance(r, Ref):
            raise Undecided(f"not a reference: {r!r}")
        return self.read(r.c, r.p)

    def full(self, v):
        """Follow references until a non-reference."""
        while isinstance(v, Ref):
            v = self.deref(v)
        return v

    def write(self, cell, path, val):
        cell.x = self.upd(cell.x, path, 0, val)

    def upd(self, v, path, i, val):
        if i == len(path):
            return val
        e = path[i]
        if isinstance(e, int):
            if v is None:
                v = Agg(None, ())
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e:
                    f.append(None)
                f[e] = self.upd(f[e], path, i + 1, val)
                return Agg(v.v, tuple(f), v.t)
            raise Undecided(f"write to field {e} of {v!r}")
        if e == "*" and isinstance(v, BoxV):
            return BoxV(self.upd(v.x, path, i + 1, val))
        if e[0] == "ss" and isinstance(v, Agg):
            a, b = e[1], e[2]
            sub = self.upd(Agg(None, v.f[a:b]), path, i + 1, val)
            return Agg(v.v, v.f[:a] + sub.f + v.f[b:], v.t)
        if e[0] == "i" and isinstance(v, Agg) and isinstance(e[1], int):
            f = list(v.f)
            f[e[1]] = self.upd(f[e[1]], path, i + 1, val)
            return Agg(v.v, tuple(f), v.t)
        if isinstance(v, Opq):
            return v.with_sub(e, self.upd(v.sub(e), path, i + 1, val))
        raise Undecided(f"write through {e} of {v!r}")

    def store(self, r, val):
        self.write(r.c, r.p, val)

    def resolve(self, fr, pl):
        cell, path = fr[pl[0]], ()
        for e in pl[1:]:
            if isinstance(e, int):
                path += (e,)
            elif e == "*":
                v = self.read(cell, path)
                if isinstance(v, Ref):
                    cell, path = v.c, v.p
                elif isinstance(v, BoxV):
                    path += ("*",)
                else:
                    raise Undecided(f"deref of {v!r}")
            else:
                k = e[0]
                if k == "d":
                    continue
                if k == "i":
                    idx = fr[e[1]].x
                    path += (("i", idx),)
                elif k == "ci":
                    n = self.length(self.read(cell, path))
                    if not isinstance(n, int):
                        path += (("i", e[1] if not e[3] else lin_add(n, e[1], -1)),)
                    else:
                        path += (("i", n - e[1] if e[3] else e[1]),)
                elif k == "ss":
                    n = self.length(self.read(cell, path))
                    path += (("ss", e[1], n - e[2] if e[3] else e[2]),)
                else:
                    raise Undecided(f"projection {e}")
        return cell, path

    def operand(self, fr, o):
        k = o[0]
        if k == "k":
            return self.const(o[1], o[2])
        pl = o[1]
        if len(pl) == 1:
            v = fr[pl[0]].x
            if v is None:
                raise Undecided("read of an uninitialised local")
            if k == "a" and isinstance(v, BoxV):
                return Ref(fr[pl[0]], ("*",))
            return v
        c, p = self.resolve(fr, pl)
        v = self.read(c, p)
        if k == "a" and isinstance(v, BoxV):
            # copying a box's pointer aliases its contents
            return Ref(c, p + ("*",))
        return v

    def const(self, ti, v):
        t = self.P.types[ti]
        if t["k"] == "fndef":
            return FnV(t["callee"])
        return self.cval(v, ti)

    def cval(self, v, ti=None):
        if isinstance(v, str):
            return int(v)
        if v is None:
            return UNIT
        if "f" in v:
            fs = tuple(self.cval(x) for x in v["f"])
            t = self.P.types[ti] if ti is not None else None
            var = v.get("v")
            if t is not None and t["k"] != "enum":
                var = None
            return Agg(var, fs, ti)
        if "ref" in v:
            return Ref(Cell(self.cval(v["ref"]), "const"))
        if "str" in v:
            return Ref(Cell(Str(v["str"]), "str"))
        return TOP

    # -------------------------------------------------------------- rvalues
    def rvalue(self, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            c, p = self.resolve(fr, r[1])
            # a reborrow of the contents of a reference is that reference
            return Ref(c, p)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), r[4], r[5])
        if k == "un":
            return self.unop(r[1], self.operand(fr, r[2]), r[3])
        if k == "discr":
            c, p = self.resolve(fr, r[1])
            return self.discr(self.read(c, p), r[2])
        if k == "agg":
            vs = tuple(self.operand(fr, o) for o in r[2])
            kk = r[1][0]
            if kk in ("array", "tuple"):
                return Agg(None, vs)
            if kk == "adt":
                t = self.P.types[r[1][1]]
                return Agg(r[1][2] if t["k"] == "enum" else None, vs, r[1][1])
            if kk == "closure":
                return Agg(None, vs, r[1][1])
            if kk == "rawptr":
                return vs[0]
            raise Undecided("aggregate")
        if k == "rep":
            v = self.operand(fr, r[1])
            if r[2] > 4096:
                raise Undecided("huge array")
            return Agg(None, (v,) * r[2])
        if k == "cast":
            return self.cast(r[1], self.operand(fr, r[2]), r[3], r[4])
        raise Undecided(f"rvalue {r[0]} {r[1] if len(r) > 1 else ''}")

    def discr(self, v, ti):
        t = self.P.types[ti]
        if isinstance(v, Agg):
            if t["k"] == "enum":
                if v.v is None:
                    raise Undecided("discriminant of a struct value")
                d = t.get("dmap")
                if d is None:
                    return v.v
                w = 64
                return d[v.v]
            return 0
        if isinstance(v, Opq) and hasattr(v, "variant"):
            return v.variant()
        if v is TOP:
            d = t.get("dmap")
            if d:
                return d[self.choose(len(d), "unknown variant", True)]
        raise Undecided(f"discriminant of {v!r}")

    def cast(self, kind, v, ft, tt):
        F, T = self.P.types[ft], self.P.types[tt]
        if kind.startswith("IntToInt"):
            if isinstance(v, Agg) and not v.f and v.v is not None:      # C-like enum
                v = F["dmap"][v.v]
            fw, fs = self.width(ft)
            tw, _ = self.width(tt)
            if v is TOP:
                return TOP
            if isinstance(v, Lin):
                if fs:
                    return TOP
                lo, hi = self.int_bounds(v)
                return v if lo >= 0 and hi < (1 << tw) else TOP
            return b_ext(fw, tw, fs, v)
        if kind == "BoxDerefTransmute":
            return v
        if kind.startswith("Transmute"):
            return self.transmute(v, ft, tt)
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion"):
            return self.repoint(v, F, T)
        raise Undecided(f"cast {kind}")

    def repoint(self, v, F, T):
        """A pointer cast between an array, its slices and its elements."""
        if not isinstance(v, Ref) or F.get("to") is None or T.get("to") is None or F["to"] == T["to"]:
            return v
        f, t = self.P.types[F["to"]], self.P.types[T["to"]]
        p = tuple(v.p)
        if f["k"] in ("array", "slice") and f["to"] == T["to"]:
            x = self.deref(v)
            if isinstance(x, Agg) and x.v is None:
                if p and isinstance(p[-1], tuple) and p[-1][0] == "ss":
                    return Ref(v.c, p[:-1] + (("i", p[-1][1]),))
                return Ref(v.c, p + (("i", 0),))
        elif t["k"] == "array" and t.get("to") == F["to"]:
            if p and isinstance(p[-1], tuple) and p[-1][0] == "i" and isinstance(p[-1][1], int) and t.get("len") is not None:
                i, n = p[-1][1], t["len"]
                whole = self.read(v.c, p[:-1])
                if isinstance(whole, Agg) and i + n <= len(whole.f):
                    return Ref(v.c, p[:-1] + ((("ss", i, i + n),) if (i, n) != (0, len(whole.f)) else ()))
            raise Undecided("an element pointer as an array")
        elif t["k"] == "array" and f["k"] in ("array", "slice") and f["to"] == t["to"]:
            x = self.deref(v)
            n = t.get("len")
            if isinstance(x, Agg) and n is not None and n != len(x.f):
                if n > len(x.f):
                    raise Undecided("an array beyond its slice")
                a = 0
                if p and isinstance(p[-1], tuple) and p[-1][0] == "ss":
                    a, p = p[-1][1], p[:-1]
                return Ref(v.c, p + (("ss", a, a + n),))
        return v

    def transmute(self, v, ft, tt):
        F, T = self.P.types[ft], self.P.types[tt]
        if isinstance(v, Ref):
            return self.repoint(v, F, T)
        fk, tk = F["k"], T["k"]
        ints = ("int", "uint", "bool", "char")
        if fk in ints and tk in ints:
            return v
        if tk in ints and isinstance(v, Agg):
            while isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            if isinstance(v, (int, Bits, Lin)):
                return v
        if fk in ints and tk == "struct" and len(T.get("variants", [{"fields": []}])[0]["fields"]) == 1:
            return Agg(None, (self.transmute(v, ft, T["variants"][0]["fields"][0][1]),), tt)
        if F["s"] == T["s"]:
            return v
        if fk in ints and T.get("path", "").endswith("option::Option") and "NonZero<" in T["s"]:
            w = self.width(ft)[0]
            return Agg(0, ()) if self.pred_int("Eq", v, 0, w, False) else Agg(1, (Agg(None, (Agg(None, (v,)),)),))
        if fk in ints and tk == "array" and isinstance(v, (int, Bits)):
            w, ew = self.width(ft)[0], self.width(T["to"])[0]
            return Agg(None, tuple(b_ext(w, ew, False, b_shr(w, v, i)) for i in range(0, w, ew)))
        if fk == "array" and tk in ints and isinstance(v, Agg) and all(isinstance(x, (int, Bits)) for x in v.f):
            w, ew = self.width(tt)[0], self.width(F["to"])[0]
            r = 0
            for i, x in enumerate(v.f):
                r = b_or(w, r, b_shl(w, b_ext(ew, w, False, x), i * ew))
            return r
        if isinstance(v, Agg) and fk == "struct" and tk == "struct":
            return v
        raise Undecided(f"transmute {F['s']} to {T['s']}")

    # ---------------------------------------------------------------- calls
    def untuple(self, v):
        if isinstance(v, Agg):
            return list(v.f)
        raise Undecided("argument tuple")

    def call_value(self, f, args):
        """Call a closure, function item or analyzer-supplied callable."""
        holder = None
        g = f
        while isinstance(g, Ref):
            holder = g
            g = self.deref(g)
        if isinstance(g, PyFn):
            return g.f(self, args)
        if isinstance(g, FnV):
            return self.call_callee(g.callee, args, self.where)
        if isinstance(g, Agg) and g.t is not None and self.P.types[g.t]["k"] == "closure":
            fid = self.P.types[g.t]["body"]
            body = self.P.fns[fid].get("body")
            if body is None:
                raise Undecided("closure without a body")
            st = self.P.types[body["locals"][1]]
            if st["k"] == "ref":
                s = holder if holder is not None else Ref(Cell(g, "closure"))
            else:
                s = g
            return self.run_fn(fid, [s] + args)
        raise Undecided(f"call of {g!r}")

    def call_callee(self, c, args, where):
        if "ctor" in c:
            ti, vi = c["ctor"]
            t = self.P.types[ti]
            return Agg(vi if t["k"] == "enum" else None, tuple(args), ti)
        d = c.get("decl", "")
        if d.startswith("core::ops::function::Fn") and ("::call_once" in d or "::call_mut" in d or d.endswith("::call")):
            return self.call_value(args[0], self.untuple(args[1]))
        if "fn" not in c:
            raise Undecided(f"unresolved call of {d}")
        return self.call_fn(c["fn"], args)

    def call_fn(self, fid, args):
        f = self.P.fns[fid]
        name = f["name"]
        if f.get("abs"):
            return self.contracts(self, f, args)
        m = self.models.get(name)
        if m is None and f["kind"] == "intrinsic":
            m = self.models.get("intrinsic:" + f["intrinsic"])
        if m is not None:
            r = m(self, f, args)
            if r is not NotImplemented:
                return r
        if "body" in f:
            return self.run_fn(fid, args)
        for p in PANIC_FNS:
            if name.startswith(p) or f["path"].startswith(p):
                msg = ""
                for a in args:
                    if isinstance(a, Ref) and isinstance(a.c.x, Str):
                        msg = a.c.x.s
                raise Panic(msg or name.rsplit("::", 1)[-1], self.where, tuple(self.stack))
        raise Undecided(f"no contract for {name} on {f.get('selfs', '')}")

    def run_fn(self, fid, args):
        f = self.P.fns[fid]
        body = f["body"]
        if fid not in self.seen_fns:
            self.seen_fns.add(fid)
            self.order.append(fid)
        if len(self.stack) > 150:
            raise Undecided("call depth")
        n = body["argc"]
        if len(args) != n:
            if body["spread"] is not None:
                k = body["spread"] - 1
                args = args[:k] + [Agg(None, tuple(args[k:]))]
            if len(args) != n:
                raise Undecided(f"arity of {f['name']}")
        fr = [Cell(self.P.only[t]) for t in body["locals"]]
        for i, a in enumerate(args):
            fr[i + 1].x = a
        # zero-sized function items may be used without being assigned
        self.stack.append(f["name"])
        now = (fid, tuple(args)) if args and all(pure(a) for a in args) else (fid, None)
        if now[1] is not None and now in self.active:
            # a function of its argument values alone, computing itself on the same values
            raise Panic(f"{f['name']} calls itself with the same arguments without end", self.where, tuple(self.stack))
        self.active.append(now)
        try:
            return self.loop(f, body["blocks"], fr)
        except Undecided as e:
            if e.stack is None:
                e.stack = tuple(self.stack)
            raise
        finally:
            self.stack.pop()
            self.active.pop()

    def loop(self, f, blocks, fr):
        bb = 0
        while True:
            b = blocks[bb]
            for s in b["s"]:
                self.steps += 1
                k = s[0]
                if k == "=":
                    self.where = s[3]
                    v = self.rvalue(fr, s[2])
                    pl = s[1]
                    if len(pl) == 1:
                        fr[pl[0]].x = v
                    else:
                        c, p = self.resolve_w(fr, pl)
                        self.write(c, p, v)
                elif k == "setd":
                    c, p = self.resolve(fr, s[1])
                    v = self.read(c, p)
                    self.write(c, p, Agg(s[2], v.f, v.t))
                elif k == "assume":
                    pass
                else:
                    raise Undecided(f"statement {s[1] if len(s) > 1 else k}")
            if self.steps > STEP_LIMIT:
                raise Undecided("step budget")
            self.steps += 1
            t = b["t"]
            k = t[0]
            if k == "goto":
                bb = t[1]
            elif k == "switch":
                bb = self.switch(self.operand(fr, t[1]), t)
            elif k == "call":
                self.where = t[5]
                fo = t[1]
                args = [self.operand(fr, a) for a in t[2]]
                if "op" in fo:
                    v = self.call_value(self.operand(fr, fo["op"]), args)
                else:
                    v = self.call_callee(fo, args, t[5])
                self.where = t[5]
                if t[4] is None:
                    raise Undecided("diverging call returned")
                pl = t[3]
                if len(pl) == 1:
                    fr[pl[0]].x = v
                else:
                    c, p = self.resolve_w(fr, pl)
                    self.write(c, p, v)
                bb = t[4]
            elif k == "return":
                return fr[0].x if fr[0].x is not None else UNIT
            elif k == "drop":
                if self.P.dtors:
                    raise Undecided(f"the crate now runs code on drop ({self.P.dtors[0]})")
                bb = t[2]
            elif k == "assert":
                self.where = t[5]
                v = self.operand(fr, t[1])
                if not isinstance(v, int):
                    v = self.pick(("assert", repr(v), self.where), {0, 1}, f"assertion {t[4]}")
                if bool(v) == bool(t[2]):
                    bb = t[3]
                else:
                    raise Panic(f"arithmetic/bounds check ({t[4]})", self.where, tuple(self.stack))
            elif k == "unreachable":
                raise Panic("unreachable code reached", t[1] if len(t) > 1 else self.where, tuple(self.stack))
            else:
                raise Undecided(f"terminator {k}")

    def resolve_w(self, fr, pl):
        cell, path = fr[pl[0]], ()
        if any(not isinstance(e, int) and not (isinstance(e, list) and e[0] == "d") for e in pl[1:]):
            return self.resolve(fr, pl)
        for e in pl[1:]:
            if isinstance(e, int):
                path += (e,)
        return cell, path

    def switch(self, v, t):
        cases, other = t[2], t[3]
        if isinstance(v, int):
            for val, tgt in cases:
                if int(val) == v:
                    return tgt
            if other is None:
                raise Panic("switch without target", self.where, tuple(self.stack))
            return other
        if isinstance(v, (Bits, Lin)):
            poss = []
            for val, tgt in cases:
                s = self.cmp_set(v, int(val), 128, False)
                if s == {0}:
                    return tgt
                if 0 in s:
                    poss.append((int(val), tgt))
            opts = poss + ([("else", other)] if other is not None else [])
            i = self.pick(("sw", v, tuple(str(o[0]) for o in opts)), set(range(len(opts))), f"branch on {v!r}")
            return opts[i][1]
        opts = [tgt for _, tgt in cases] + ([other] if other is not None else [])
        return opts[self.choose(len(opts), f"branch on {v!r}", True)]


def pure(a):
    """A plain value: no reference, nothing unknown, nothing opaque."""
    if isinstance(a, (bool, int)):
        return True
    if isinstance(a, Bits):
        return a.unk == 0
    return isinstance(a, Agg) and all(pure(x) for x in a.f)


BIG = 1 << 200


class Infeasible(Exception):
    """The choices of this path contradict each other: no input takes it."""


def internal(e):
    """Something the analysis was not written for: it decides nothing."""
    at = traceback.extract_tb(e.__traceback__)[-1]
    return Undecided(f"not supported: {type(e).__name__} {e} ({os.path.basename(at.filename)}:{at.lineno})")


def explore(make_run, body, limit=4000):
    """Enumerate all choice scripts.  body(run) -> list of problems.
    Yields (run, result, error)."""
    script, n = [], 0
    while True:
        run = make_run(script)
        err = res = None
        real = True
        try:
            res = body(run)
        except Infeasible:
            real = False
        except Panic as e:
            err = e
        except Undecided as e:
            err = e
        except Exception as e:
            err = internal(e)
        if real:
            yield run, res, err
        n += 1
        tr = run.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            return
        script = [x[0] for x in tr[:i]] + [tr[i][0] + 1]
        if n >= limit:
            run2 = make_run([])
            yield run2, None, Undecided("path budget")
            return
