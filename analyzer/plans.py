"""Which obligations decide which property.

Each entry is (suite, operations, kinds, full?).  `own` obligations are the
property itself.  `hist` are the mutators: every property about the answers of
an operation quantifies over every history of insertions and removals, so an
operation that leaves a wrong state behind breaks it too.  Whatever contract of
a lower layer either of them relied on is added by the driver (closure).
"""
from obligations import *

ANY = None
STATE = ("state", "kept", "panic")
ITERS = ("iter_o", "iter_b", "iter_sized_o", "iter_sized_b")
KEYOPS = ("split_val", "split_ref", "join", "join_ref", "cmp")
IDXOPS = ("index", "cardinality")


def on(suites, ops, kinds=ANY):
    return [(s, tuple(ops), kinds) for s in suites]


MUTATORS = WRITE + ("from_monad",)
HIST = on(TREES, MUTATORS, STATE)
LISTOPS = suite_coll.LIST_OPS

ALL = (on(TREES, VEB + ("len",)) + on(("byteset",), BYTE_ONLY) + on(COLLS, COLL)
       + [(s, LISTOPS[s], ANY) for s in LISTS] + on(ITERS, ITEROPS)
       + on(("keys",), KEYOPS) + on(("idx",), IDXOPS) + on(("small", "mb", "tree_clone", "api"), ("*",)))

PLANS = {
    "C01": dict(own=on(TREES, ("find", "find_mut")), hist=HIST),
    "C02": dict(own=on(TREES, ("predecessor", "predecessor_mut")), hist=HIST),
    "C03": dict(own=on(TREES, ("successor", "successor_mut")), hist=HIST),
    "C04": dict(own=on(TREES, ENDS + ENDS_MUT + MONAD) + on(("byteset",), ("lowest", "highest")), hist=HIST),
    "C05": dict(own=on(TREES, ("insert", "from_monad"))),
    "C06": dict(own=on(TREES, ("remove",)), hist=on(TREES, ("insert", "from_monad"), STATE)),
    "C07": dict(own=on(TREES, ("remove_min", "remove_max")), hist=on(TREES, ("insert", "from_monad"), STATE)),
    "C08": dict(own=on(TREES, ORD_MUT + ENDS_MUT) + on(COLLS, ("get_mut",)) + on(LISTS, ("get_mut",)), hist=HIST),
    "C09": dict(own=on(("sized",), VEB + ("len",))),
    "C10": dict(own=on(("boxed", "btree"), VEB)),
    "C11": dict(own=on(("keys",), KEYOPS)),
    "C12": dict(own=on(("idx",), IDXOPS)),
    "C13": dict(own=on(ITERS, tuple(o for o in ITEROPS if o != "size_hint")), hist=HIST),
    "C14": dict(own=on(TREES, ("len_hint", "len")) + on(ITERS, ("size_hint",)), hist=HIST),
    "C15": dict(own=on(("byteset",), VEB + BYTE_ONLY) + on(("api_set",), ("*",))),
    "C16": dict(own=on(("bytemap",), VEB)),
    "C17": dict(own=on(COLLS, COLL)),
    "C18": dict(own=[(s, LISTOPS[s], ANY) for s in LISTS]),
    "C19": dict(own=[(s, o, ("panic",)) for s, o, _ in ALL]),
    "C20": dict(own=on(("tree", "boxed", "sized"), VEB, ("cost",)) + on(COLLS, COLL, ("cost",)) + on(("list_tree",), ("remove_key", "maybe_remove_key"), ("cost",)),
                no_closure=True, extra="calls"),
    "C21": dict(own=on(("api",), ("*",)), extra="witness"),
    "C22": dict(own=[], extra="facts"),
    "C23": dict(own=on(("byteset",), ("clone", "clone_from", "eq")) + on(("tree_clone",), ("*",))),
    "C24": dict(own=on(("mb",), ("*",))),
    "C25": dict(own=on(("small", "api_small"), ("*",))),
    "C26": dict(own=on(TREES, ORD + ORD_MUT + ENDS + ENDS_MUT + ("is_monad", "len_hint"), ("state", "kept"))
                + on(TREES, ("remove", "into_monad"), ("kept",)) + on(COLLS, ("get", "get_mut"), ("state", "kept"))
                + on(COLLS, ("maybe_remove_key",), ("kept",)) + on(ITERS, ("size_hint",), ("state",))),
    "C27": dict(own=[], extra="returns"),
}

# who implements a contract another layer relied on
CLOSURE = {"VebTree": TREES, "TreeCollection": COLLS, "List": ("list_val",), "TreeList": ("list_tree",),
           "VebKey": ("keys",), "VebKeyRef": ("keys",), "SizedVebKey": ("idx",)}
CLONES = (("tree_clone", ("*",), ANY), ("byteset", ("clone", "clone_from"), ANY))


def closure(used):
    """Obligations for a set of contract names such as `VebTree::find`."""
    out = []
    for u in sorted(used):
        tr, m = u.split("::")
        for s in CLOSURE.get(tr, ()):
            m2 = "join_ref" if (tr, m) == ("VebKey", "join") else m
            out.append((s, (m, m2) if m2 != m else (m,), ANY))
        if u == "Clone::clone":
            out += CLONES
        if u in ("Ord::cmp", "PartialOrd::partial_cmp", "PartialEq::eq"):
            out.append(("keys", ("cmp",), ANY))
    return out

# operations some implementations lack
OPTIONAL = {("tree", "len"), ("bytemap", "len"), ("boxed", "len"), ("btree", "len"), ("bytemap", "clone"),
            ("sized", "from_monad"), ("boxed", "from_monad"), ("btree", "from_monad"),
            ("byteset", "is_empty"), ("tree", "clone"), ("tree", "clone_from")}

EXPLAIN = {
    "abs": "Abstract interpretation of the monomorphic MIR the compiler produces from /repo's current source. Each obligation "
           "is one operation on one class of a finite partition of its inputs (contents, key positions, which entries are "
           "known); parameters of the crate's generic code are opaque types known only by the contract of the trait they "
           "implement, and every contract relied on is itself an obligation for each implementation in the crate. Every path "
           "through the operation's control-flow graph which the class allows is followed; an obligation is discharged only "
           "if the specification holds on all of them.",
    "witness": "Programs that would break the guarantee are type- and borrow-checked against /repo's current source; each must be "
               "rejected at its marked line while its twin without that line is accepted. Nothing is executed.",
    "returns": "Every function body of the crate reachable from an operation is searched for loops and recursion in its control-flow and "
               "call graphs; each must be bounded by something other than the answers of user code, and no body may contain unsafe code.",
    "facts": "Every item, expression and resolved path of the crate's source, as the compiler sees it after macro expansion and name "
             "resolution, is classified against the rule.",
}
ASSUME = [
    "rustc's MIR is what runs; the models of core/alloc/hashbrown/generic-array functions in analyzer/models_*.py match their documentation",
    "Ord, Eq, Hash and Borrow of user keys are lawful, and a user's own VebKey, VebTree, TreeCollection and List implementations keep the contracts in analyzer/contracts.py",
    "entries not named in a class are an ordered remainder that every operation treats alike (small-model argument in DESIGN.md)",
]
