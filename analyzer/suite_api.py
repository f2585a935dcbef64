"""Everything public that needs no type argument, whatever its name: a function
or trait implementation which returns a byte set or a small integer, or gets
one to change, never leaves an empty set or a number outside its range.

The operations known by name have obligations of their own; this suite is what
covers the ones somebody adds."""
import itertools

from domain import *
from engine import Bad, BadState
from interp import Panic
from contracts import mb_owned
from suite_bytes import Case, ALL, state, facts, leaf_paths, show
from suite_keys import mk, unwrap

SETS = (1 << 0, 1 << 127, 1 << 128, 1 << 255, 1 << 3 | 1 << 200, ALL)
EDGE = {"usize": (0, 1, 2, 3, 4, 7, 8, 15, 16, 63, 64, 127, 128, 255, 256)}


def edges(bits):
    m = (1 << bits) - 1
    return sorted({x for b in (0, 1, 2, 4, 7, 8, 16, 32, 64, 128) for x in ((1 << b) - 1, 1 << b) if x <= m} | {min(3, m), m})


class Shape(Exception):
    """A type this suite has no inputs for."""


class Api:
    def __init__(self, prog, bytes_suite, key):
        self.P, self.S, self.key = prog, bytes_suite, key

    def tracked(self, ti, seen=()):
        """Does a type contain, by value, a structure with a range to keep?"""
        t = self.P.types[ti]
        if self.counts(t):
            return True
        if ti in seen:
            return False
        seen += (ti,)
        if t["k"] == "tuple":
            return any(self.tracked(x, seen) for x in t["fields"])
        if t["k"] == "array":
            return self.tracked(t["to"], seen)
        if t["k"] in ("struct", "enum"):
            return any(self.tracked(x, seen) for v in t.get("variants") or () for _, x in v["fields"])
        return False

    @staticmethod
    def what(t):
        if t.get("crate") == "veb_tree":
            n = t["path"].split("::")[-1]
            return {"ByteSet": "set", "U4": 15, "U2": 3}.get(n)

    def counts(self, t):
        """What this suite is asked to look at: sets, numbers or both."""
        w = self.what(t)
        return w and (self.key == "api" or (self.key == "api_set") == (w == "set"))

    def inputs(self, ti, alone):
        """(name, value, tracked cells) for the classes of a parameter type."""
        t = self.P.types[ti]
        w = self.what(t)
        if w == "set":
            if self.S is None:
                raise Shape("byte sets")
            out = []
            for s in SETS:
                c = Case("", s, 0)
                out.append((show(c), lambda c=c: state(self.S.L, c), ()))
            c = Case("", 1 | 1 << 255, ALL >> 1 & ~1)
            out.append(("{0, 255, any others}", lambda c=c: state(self.S.L, c), ()))
            return out
        if w:
            return [(str(i), lambda i=i: mk("u4" if w == 15 else "u2", i), ()) for i in range(w + 1)]
        k = t["k"]
        if k == "bool":
            return [(str(i), lambda i=i: i, ()) for i in (0, 1)]
        if k == "uint":
            if t["s"] == "u8" and alone:
                return [(str(i), lambda i=i: i, ()) for i in range(256)]
            return [(str(i), lambda i=i: i, ()) for i in EDGE.get(t["s"], edges(t["bits"]))]
        if k == "int":
            return [(hex(i), lambda i=i: i, ()) for i in edges(t["bits"])]
        if k == "tuple":
            return self.product([self.inputs(x, False) for x in t["fields"]])
        if k == "array" and t.get("len", 99) <= 4:
            e = self.P.types[t["to"]]
            if e["k"] == "uint":
                vals = [(str(i), lambda i=i: i, ()) for i in (0, 1, (1 << e["bits"]) - 1)]
            else:
                vals = self.inputs(t["to"], False)
            return self.product([vals] * t["len"])
        if k == "ref":
            return [("&" + n, lambda g=g: Ref(Cell(g())), ()) for n, g, _ in self.inputs(t["to"], alone)]
        if k == "enum" and t["path"].endswith("MaybeBorrowed"):
            return [(n, lambda g=g: mb_owned(self, g()), ()) for n, g, _ in self.inputs(t["args"][0], alone)]
        if k == "enum" and t["path"] == "core::option::Option":
            return [("None", lambda: Agg(0, ()), ())] + [(f"Some({n})", lambda g=g: Agg(1, (g(),)), ()) for n, g, _ in self.inputs(t["args"][0], alone)]
        raise Shape(t["s"])

    @staticmethod
    def product(ls):
        out = []
        for xs in itertools.product(*ls):
            out.append(("(" + ", ".join(x[0] for x in xs) + ")", lambda xs=xs: Agg(None, tuple(x[1]() for x in xs)), ()))
        return out

    def inspect(self, I, ti, v, what):
        """No empty set and no number out of range anywhere in a value."""
        t = self.P.types[ti]
        w = self.counts(t) and self.what(t)
        if w == "set":
            ls = dict(leaf_paths(v))
            ws = [ls.get(p) for p in self.S.L.words]
            if any(x is None for x in ws):
                raise Undecided(f"{what}: a byte set of another shape")
            if all(isinstance(x, int) and x == 0 for x in ws):
                raise BadState(f"{what} makes an empty byte set")
            if not any(isinstance(x, int) and x or isinstance(x, Bits) and parts(x)[0] for x in ws):
                raise Undecided(f"{what}: the set may be empty")
            return
        if w:
            n = unwrap(v)
            if isinstance(n, int):
                if not 0 <= n <= w:
                    raise BadState(f"{what} makes the number {n}, which is not in 0..={w}")
                return
            raise Undecided(f"{what}: a number of unknown range")
        if not isinstance(v, Agg) or not self.tracked(ti):
            return
        if t["k"] == "tuple":
            for x, f in zip(t["fields"], v.f):
                self.inspect(I, x, f, what)
        elif t["k"] == "array":
            for f in v.f:
                self.inspect(I, t["to"], f, what)
        elif t["k"] in ("struct", "enum") and t.get("variants"):
            fs = t["variants"][v.v or 0]["fields"]
            for (_, x), f in zip(fs, v.f):
                self.inspect(I, x, f, what)

    def obligations(self):
        for name, fid, ins, out, at in self.P.api:
            if "__void_" in name:
                continue
            muts = [i for i, x in enumerate(ins) if self.P.types[x]["k"] == "ref" and self.P.types[x]["mut"]
                    and self.tracked(self.P.types[x]["to"])]
            if not muts and not self.tracked(out):
                continue
            short = name.replace("veb_tree::", "").replace(" ", "_")
            try:
                classes = [self.inputs(x, len(ins) == 1) for x in ins]
            except Shape as e:
                def cannot(I, e=e):
                    raise Undecided(f"no inputs of type {e}")
                yield self.key, short, "every class", cannot, None, None, None
                continue
            n = 1
            for c in classes:
                n *= len(c)
            if n > 3000:
                classes = [c[:: max(1, len(c) // 8)] for c in classes]
            for xs in itertools.product(*classes):
                case = "(" + ", ".join(x[0] for x in xs) + ")"

                def body(I, fid=fid, xs=xs, ins=ins, out=out, muts=muts, name=name, case=case):
                    args = [x[1]() for x in xs]
                    try:
                        r = I.call_fn(fid, list(args))
                    except Panic:
                        return None
                    what = name.replace("veb_tree::", "") + case
                    self.inspect(I, out, r, what)
                    for i in muts:
                        self.inspect(I, self.P.types[ins[i]]["to"], I.deref(args[i]), what)
                yield self.key, short, case, body, None, None, None
