"""All obligations, addressed as (suite, operations)."""
import copy

from domain import *
from interp import Panic, Infeasible, internal
import engine
from engine import Bad
import suite_tree
import suite_bytes
import suite_coll
import suite_wrap
import suite_iter
import suite_keys
import suite_api

ORD = ("find", "predecessor", "successor")
ORD_MUT = tuple(o + "_mut" for o in ORD)
ENDS = ("min_val", "max_val")
ENDS_MUT = tuple(o + "_mut" for o in ENDS)
MONAD = ("is_monad", "into_monad", "from_monad")
WRITE = ("insert", "remove", "remove_min", "remove_max")
VEB = ORD + ORD_MUT + ENDS + ENDS_MUT + MONAD + WRITE + ("len_hint",)
COLL = suite_coll.COLL_OPS
TREES = ("tree", "byteset", "bytemap", "sized", "boxed", "btree")
COLLS = ("coll_boxed", "coll_hash", "coll_array", "coll_garray", "coll_byte")
LISTS = ("list_tree", "list_val")
BYTE_ONLY = ("len", "lowest", "highest", "clone", "clone_from", "eq")
ITEROPS = suite_iter.OPS


class Setup(Exception):
    """A suite could not even build its sample states: (kind, detail)."""

    def __init__(self, kind, detail):
        super().__init__(detail)
        self.kind = kind


class Factory:
    """Builds the suites once per program; `thorough` widens the partitions."""

    def __init__(self, prog, thorough=False):
        self.P, self.thorough = prog, thorough
        self.made = {}
        self.failed = {}

    def get(self, key):
        if key in self.made:
            return self.made[key]
        if key in self.failed:
            return None
        try:
            self.made[key] = self.make(key)
        except Bad as e:
            self.failed[key] = ("violation", e.kind, str(e))
        except Panic as e:
            self.failed[key] = ("violation", "panic", f"panic: {e.what} at {e.where}")
        except (Undecided, Infeasible) as e:
            self.failed[key] = ("undecided", "", str(e))
        except Exception as e:
            self.failed[key] = ("undecided", "", str(internal(e)))
        return self.made.get(key)

    def make(self, key):
        P = self.P
        if key == "tree":
            T = suite_tree.Templates(P)
            if not T.ok:
                for x in suite_tree.built(T):
                    r = engine.decide(P, *x[:4], env=x[5])
                    if r.verdict == "violation":
                        raise engine.BadState(r.detail)
                raise Undecided("the states built by from_monad and insert are not a min, a max, a summary and a collection")
            return T
        if key in ("byteset", "bytemap"):
            return suite_bytes.Suite(P, key)
        if key == "coll_byte":
            return suite_bytes.Coll(P)
        if key in COLLS:
            return suite_coll.build(P, key)
        if key in LISTS:
            return suite_coll.Lists(P, key)
        if key in ("sized", "boxed", "btree"):
            return suite_wrap.Wrap(P, key)
        if key in ("iter_o", "iter_b"):
            return suite_iter.Iters(P, "iter", key.endswith("o"))
        if key in ("iter_sized_o", "iter_sized_b"):
            return suite_iter.Iters(P, "iter_sized", key.endswith("o"))
        if key in ("keys", "idx", "small", "mb"):
            return suite_keys.Keys(P)
        if key in ("api", "api_set", "api_small"):
            return suite_api.Api(P, self.get("byteset"), key)
        return key

    def items(self, key, ops, full=True):
        """7-tuples (suite, op, case, body, nonempty, env, bounds).  Should
        drawing them up fail, what could not be drawn up stays open."""
        try:
            yield from self.listed(key, ops, full)
        except Exception as e:
            und = e if isinstance(e, Undecided) else internal(e)

            def body(run):
                raise und
            for o in ops:
                yield key, o, "the obligations themselves", body, None, None, None

    def listed(self, key, ops, full):
        S = self.get(key)
        if S is None:
            return
        P = self.P
        if key == "tree":
            kops = [o for o in suite_tree.KOPS if o in ops]
            nops = [o for o in suite_tree.NOPS if o in ops]
            aligns = ("same", "inc", "dec")
            ws = self.worlds(aligns)
            for w in ws:
                env = {"owned": w.align != "inc"}
                for op in kops:
                    yield "tree", op, w.name, suite_tree.run_op(P, S, w, op), None, env, None
            for x in suite_tree.built(S):
                if x[1] in ops:
                    yield x
            for w in ws:
                for op in nops:
                    yield "tree", op, w.name, suite_tree.run_op(P, S, w, op), None, {"owned": w.align != "inc"}, None
        elif key in ("byteset", "bytemap"):
            for x in self.bytes(S, key, ops, full):
                yield x + (None, None)
        elif key == "coll_byte":
            for x in S.obligations(tuple(o for o in COLL if o in ops)):
                yield x + (None, None)
        elif key in COLLS:
            yield from suite_coll.obligations(S, tuple(o for o in COLL if o in ops))
        elif key in LISTS:
            yield from S.obligations(tuple(o for o in suite_coll.LIST_OPS[key] if o in ops))
        elif key in ("sized", "boxed", "btree"):
            yield from S.obligations(tuple(o for o in suite_wrap.KOPS + suite_wrap.NOPS if o in ops))
        elif key.startswith("iter"):
            yield from S.obligations(tuple(o for o in ITEROPS if o in ops))
        elif key == "keys":
            yield from S.obligations(tuple(o for o in ("split_val", "split_ref", "join", "join_ref", "cmp") if o in ops))
        elif key == "idx":
            yield from S.idx(tuple(o for o in ("index", "cardinality") if o in ops))
        elif key == "small":
            yield from S.small()
        elif key == "mb":
            yield from S.mb()
        elif key in ("api", "api_set", "api_small"):
            yield from S.obligations()
        elif key == "tree_clone":
            yield from suite_keys.tree_clone(P)
        else:
            raise KeyError(key)

    def worlds(self, aligns):
        k = ("worlds", aligns)
        if k not in self.made:
            self.made[k] = list(suite_tree.worlds(aligns=aligns))
        return self.made[k]

    def bytes(self, S, key, ops, full):
        pick = lambda *o: tuple(x for x in o if x in ops)
        if "from_monad" in ops:
            yield from S.singles()
        o = pick("find", "find_mut")
        if o:
            yield from S.queries(o)
        o = pick("predecessor", "successor", "predecessor_mut", "successor_mut")
        if o:
            yield from S.queries(o, 1 if full else 7)
        o = pick("min_val", "max_val", "min_val_mut", "max_val_mut", "remove_min", "remove_max")
        if key == "byteset":
            o += pick("lowest", "highest")
        if o:
            yield from S.ends(o)
        if "insert" in ops:
            yield from S.inserts()
        if "remove" in ops:
            yield from S.removes()
        o = pick("is_monad", "into_monad")
        if o:
            yield from S.monad(o)
        o = pick("len", "len_hint", "clone", "clone_from") if key == "byteset" else pick("len_hint")
        if o:
            yield from S.counts(o)
        if key == "byteset" and "eq" in ops:
            yield from S.eqs()
        yield from S.shapes(tuple(ops))


SWAP = {"predecessor": "successor", "predecessor_mut": "successor_mut", "min_val": "max_val",
        "min_val_mut": "max_val_mut", "remove_min": "remove_max", "find": "predecessor",
        "find_mut": "successor_mut", "lowest": "highest", "next": "next_back"}
SWAP.update({b: a for a, b in list(SWAP.items()) if not a.startswith("find")})


def swapped(prog, key, op):
    """A program whose root for `op` is another operation: a known-wrong variant
    on which the obligations of `op` must fail."""
    other = SWAP.get(op)
    mod = key[:-2] if key.startswith("iter") else key
    a, b = (f"{mod}_{op}", f"{mod}_{other}") if op in ("lowest", "highest") else (f"{mod}.{op}", f"{mod}.{other}")
    if other is None or a not in prog.roots or b not in prog.roots:
        return None
    q = copy.copy(prog)
    q.roots = dict(prog.roots)
    q.roots[a] = prog.roots[b]
    return q
