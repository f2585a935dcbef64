"""Checks which are not obligations of the interpreter: the shape of the call
graph, the inventory of language features, and the compile-fail witnesses."""
import concurrent.futures
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


# ---------------------------------------------------------------- call graph

def callees(prog, f):
    """Functions a body calls, or mentions as a value (closures, fn items)."""
    out = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if k == "fn" and isinstance(v, int):
                    out.append(v)
                go(v)
    go(f.get("body", {}).get("blocks", []))
    return out


OPS = ("VebTree", "TreeCollection", "TreeList", "List")


def is_op(f):
    """An implementation of one of the crate's own operations."""
    p = f["name"].split("::")
    return f["crate"] == "veb_tree" and "self" in f and len(p) > 1 and p[-2] in OPS


SWEEP = ("all", "any", "find", "find_map", "position", "rposition", "rfind", "fold", "try_fold", "rfold", "try_rfold", "for_each",
         "try_for_each", "count", "sum", "product", "reduce", "collect", "from_iter", "extend", "min", "max", "min_by", "max_by",
         "min_by_key", "max_by_key", "partition", "unzip", "eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "eq_by", "is_sorted")
WHOLE = ("retain", "drain", "clone", "eq", "extract_if", "contains", "fill", "to_vec", "iter_eq", "shrink_to_fit", "rehash")
SLOTS = ("slice::Iter<", "slice::IterMut<", "array::IntoIter<", "vec::IntoIter<", "GenericArrayIter<")


def entries(r):
    """The receiver's type is, or is made from, a walk over all subtrees."""
    return "Take<" not in r and ("hash_map::" in r and "hash_map::Raw" not in r and "hash_map::Entry" not in r
                                 or any(x in r for x in SLOTS) and "Option<abs::AChild>" in r)


def container(r):
    return r.startswith("hashbrown::HashMap<") or "Option<abs::AChild>" in r and ("[" in r or "GenericArray<" in r or "Vec<" in r)


def walks(prog, succ, roots):
    """Operations of a tree or of its collections that step through the entries
    one by one, with the path to the step."""
    out = []
    for r in roots:
        seen, st = {}, [(r, None)]
        while st:
            x, p = st.pop()
            f = prog.fns[x]
            if x in seen or "body" not in f or f["crate"] != "veb_tree" and x != r or x != r and is_op(f):
                continue
            seen[x] = p
            st += [(y, x) for y in sorted(succ[x])]
            blocks = f["body"]["blocks"]
            g = {i: targets(b["t"]) for i, b in enumerate(blocks) if not b["c"]}
            loops = set().union(*components(g), set())
            for i in g:
                t = blocks[i]["t"]
                if t[0] != "call" or not isinstance(t[1].get("fn"), int):
                    continue
                c = prog.fns[t[1]["fn"]]
                n, rc = c["name"].split("::")[-1], receiver(prog, c)
                if entries(rc) and (n in SWEEP or n in STEPS and i in loops) or container(rc) and n in WHOLE:
                    path, y = [], x
                    while y is not None:
                        path.append(prog.fns[y]["name"])
                        y = seen[y]
                    out.append((r, f"{n} over {rc}", t[5], tuple(reversed(path))))
    return out


def calls(dump, thorough):
    """No operation of a structure is reachable from itself: recursion descends
    through types only, and a type has finitely many levels."""
    prog = dump.prog
    succ = {i: set(c for c in callees(prog, f) if isinstance(c, int)) for i, f in enumerate(prog.fns)}
    ops = [i for i, f in enumerate(prog.fns) if "body" in f and is_op(f)]
    bad, edges = [], 0
    for r in ops:
        seen, st, par = set(), [(x, r) for x in succ[r]], {}
        while st:
            x, p = st.pop()
            edges += 1
            if x in seen:
                continue
            seen.add(x)
            par[x] = p
            if x == r:
                path, y = [r], par[x]
                while y != r and len(path) < 30:
                    path.append(y)
                    y = par[y]
                names = [prog.fns[i]["name"] for i in path]
                bad.append(("callgraph", names[0], "recursion", "cycle",
                            f"{prog.fns[r]['inst']} can call itself on the same structure", "", tuple(reversed(names))))
                break
            st += [(y, x) for y in succ[x]]
    steady = [r for r in ops if prog.fns[r]["name"].split("::")[-1] not in ("create", "from_monad")
              and prog.fns[r]["selfpath"].split("::")[-1] in ("Tree", "SizedVebTree", "ArrayTreeCollection", "HashMap", "Box")]
    for r, what, where, path in walks(prog, succ, steady):
        bad.append(("callgraph", prog.fns[r]["name"], "walk", "entries", f"{prog.fns[r]['inst']} steps through the entries: {what}", where, path))
    ctl = {f["name"].split("::")[-1]: i for i, f in enumerate(prog.fns)
           if "body" in f and "::roots::sweeps::" in f["name"] and "closure" not in f["name"]}
    wrong = [n for n, i in sorted(ctl.items()) if bool(walks(prog, succ, [i])) != n.startswith("bad")]
    # the rule must see real calls, and must find a cycle when there is one
    tree_ops = [i for i in ops if prog.fns[i]["selfpath"].endswith("tree::Tree")]
    good = len(tree_ops) >= 18 and edges >= 500
    if wrong or len(ctl) < 6:
        print("ERROR: the walk rule misjudges " + (", ".join(wrong) or "nothing: controls are missing"))
        good = False
    if len(tree_ops) < 18 or edges < 500:
        print(f"ERROR: call graph too small: {len(tree_ops)} operations of the tree, {edges} edges")
    return bad, {"obligations": len(ops), "discharged": len(ops) - len(bad), "undecided": 0, "operations": len(ops),
                 "of_the_tree": len(tree_ops), "call_edges_followed": edges, "operations_searched_for_walks": len(steady), "controls": sorted(ctl),
                 "rule": "no operation of VebTree, TreeCollection or List reaches itself on the same structure; "
                         "none of a tree, its wrappers or its collections walks over the subtrees"}, good


# ---------------------------------------------------------------- termination

ENDLESS = ("::Successors<", "::FromFn<", "::RangeFrom<", "::Repeat<", "::RepeatWith<", "::Cycle<")
STEPS = ("next", "next_back", "nth", "nth_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "split_first", "split_last")
ADAPT = STEPS + ("size_hint", "by_ref", "map", "filter", "take", "zip", "rev", "enumerate", "peekable", "fuse", "copied", "cloned",
                 "skip", "chain", "inspect", "scan", "into_iter", "step_by", "clone", "peek")
ARITH = ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "AddUnchecked", "SubUnchecked", "Shr", "Shl", "Div", "BitAnd", "ShrUnchecked", "ShlUnchecked",
         "Mul", "MulWithOverflow")


def locals_of(x):
    """The locals an operand, place or right-hand side mentions."""
    out = set()

    def place(p):
        out.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i":
                out.add(e[1])

    def go(y):
        if isinstance(y, list):
            if len(y) == 2 and y[0] in ("c", "m", "a") and isinstance(y[1], list):
                place(y[1])
            elif y and y[0] in ("ref", "discr", "len", "addr", "copyref") and len(y) > 1 and isinstance(y[1], list) and y[1] and isinstance(y[1][0], int):
                place(y[1])
            else:
                for z in y:
                    go(z)
    go(x)
    return out


def components(succ):
    """Strongly connected components that contain a cycle (Tarjan, iterative)."""
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in succ:
        if root in idx:
            continue
        work = [(root, iter(succ[root]))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in succ:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ[v]:
                        out.append(c)
    return out


def targets(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[3]]
    return []


def foreign(prog, succ):
    """Functions from which code of the user of the crate can be reached."""
    rev = {}
    for i, cs in succ.items():
        for c in cs:
            rev.setdefault(c, []).append(i)
    seen, st = set(), [i for i, f in enumerate(prog.fns) if f.get("abs")]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += rev.get(x, ())
    return seen


def receiver(prog, f):
    s = f.get("selfs", "")
    return s if s else " ".join(prog.types[a].get("s", "") for a in f.get("args", []))


def finite(prog, f):
    """A step through something that has an end whatever user code answers."""
    p = f["name"].split("::")
    r = receiver(prog, f)
    if p[-1] not in STEPS or f["crate"] not in ("core", "alloc", "std", "hashbrown", "generic_array"):
        return False
    return "Take<" in r or not ("veb_tree::Iter<" in r or any(e in r for e in ENDLESS))


def loops_of(prog, f, user):
    """(verdict, why, where) for each loop of a body."""
    blocks = f["body"]["blocks"]
    g = {i: targets(b["t"]) for i, b in enumerate(blocks) if not b["c"]}
    for c in components(g):
        where = next((blocks[i]["t"][-1] for i in sorted(c) if blocks[i]["t"][0] == "call"), f["span"])

        def cuts(bs):
            return not components({i: [x for x in g[i] if x in c and x not in bs] for i in c if i not in bs})
        steps, defs, arith, dep = set(), {}, set(), set()
        for i in c:
            for s in blocks[i]["s"]:
                if s[0] != "=":
                    continue
                rv, dst = s[2], s[1][0]
                defs.setdefault(dst, set()).update(locals_of(rv))
                if rv[0] in ("bin", "binop", "checked") and any(a in ARITH for a in rv if isinstance(a, str)):
                    arith.add(dst)
            t = blocks[i]["t"]
            if t[0] == "call":
                fn = t[1].get("fn")
                callee = prog.fns[fn] if isinstance(fn, int) else None
                dst = t[3][0]
                defs.setdefault(dst, set()).update(locals_of(t[2]))
                if callee is None or fn in user or callee.get("abs"):
                    dep.add(dst)
                if callee is not None and finite(prog, callee):
                    steps.add(i)
                elif callee is not None and fn not in user and callee["name"].startswith("core::num"):
                    arith.add(dst)

        def slice_(ls):
            seen, st = set(), list(ls)
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += defs.get(x, ())
            return seen
        if cuts(steps):
            yield "held", "each round steps through something finite", where
            continue
        exits, counted = [], set()
        for i in c:
            t = blocks[i]["t"]
            if t[0] == "switch" and any(x not in c and blocks[x]["t"][0] != "unreachable" for x in g[i]):
                sl = slice_(locals_of(t[1]))
                exits.append((i, bool(sl & dep)))
                # a variable that each round advances by arithmetic on itself
                if any(x in arith and x in slice_(defs.get(x, ())) for x in sl) and not sl & dep:
                    counted.add(i)
            elif t[0] != "switch" and any(x not in c for x in g[i]):
                exits.append((i, True))
        if counted and cuts(counted):
            yield "held", "each round advances a counter that the exit compares", where
        elif not exits:
            yield "violation", "a loop without an exit", where
        elif all(u for _, u in exits):
            yield "violation", "a loop that ends only when code of the user of the crate says so", where
        else:
            yield "undecided", "a loop whose rounds are not counted", where


def returns(dump, thorough):
    """Every operation comes back whatever user code answers: safe code only,
    every loop steps through something finite, recursion descends through types."""
    prog = dump.prog
    succ = {i: set(c for c in callees(prog, f) if isinstance(c, int)) for i, f in enumerate(prog.fns)}
    user = foreign(prog, succ)
    ours = [i for i, f in enumerate(prog.fns) if "body" in f and f["crate"] == "veb_tree"]
    ctl = {f["name"].split("::")[-1]: i for i, f in enumerate(prog.fns)
           if "body" in f and "::roots::loops::" in f["name"] and "closure" not in f["name"]}
    comps = components({i: sorted(s) for i, s in succ.items()})
    und, rows = {}, {}

    def judge(i):
        f, out = prog.fns[i], []
        for v, why, where in loops_of(prog, f, user):
            out.append((v, why, where))
        for c in comps:
            if i in c:
                op = is_op(f) or f["name"].startswith("core::iter::traits")
                asks = any(x in user for j in c for x in succ[j] - c)
                # a recursion that passes a counter down is one the loop rule would accept
                counted = any(t[0] == "call" and t[1].get("fn") in c and countdown(prog, prog.fns[j], t)
                              for j in c for b in prog.fns[j].get("body", {}).get("blocks", []) for t in [b["t"]])
                v = "violation" if op or asks and not counted else "undecided"
                out.append((v, "calls itself on the same structure", f["span"]))
        for b in f["body"]["blocks"]:
            t = b["t"]
            if t[0] != "call" or not isinstance(t[1].get("fn"), int):
                continue
            g = prog.fns[t[1]["fn"]]
            p = g["name"].split("::")
            if "iter" not in p or p[-1] in ADAPT or g["crate"] not in ("core", "alloc", "std", "hashbrown"):
                continue
            r = receiver(prog, g)
            if "Take<" in r:
                continue
            if "veb_tree::Iter<" in r or any(e in r for e in ("::Successors<", "::FromFn<", "::RepeatWith<")) and t[1]["fn"] in user:
                out.append(("violation", f"{p[-1]} runs through an iterator that ends only when code of the user of the crate says so", t[5]))
            elif any(e in r for e in ENDLESS):
                out.append(("undecided", f"{p[-1]} runs through an iterator without an end of its own", t[5]))
        return out
    bad, nloops = [], 0
    for i in ours:
        f = prog.fns[i]
        for v, why, where in judge(i):
            nloops += 1
            if v == "violation":
                b = ("termination", f["name"], "loop", "returns", f"{f['inst']}: {why}", where, ())
                if b not in bad:
                    bad.append(b)
            elif v == "undecided":
                und[f["inst"]] = why
    b2, c2, g2 = facts(dump, thorough)
    b2 = [b for b in b2 if b[3] == "unsafe"]
    if prog.dtors:
        und["drop"] = f"{prog.dtors[0]} runs code on drop, also while unwinding"
    good, missed = g2, []
    for n, i in sorted(ctl.items()):
        vs = {v for v, _, _ in judge(i)} or {"held"}
        if ("violation" in vs) != n.startswith("bad"):
            missed.append(n)
    if missed or len(ctl) < 9:
        print("ERROR: the termination rule misjudges " + (", ".join(missed) or "nothing: controls are missing"))
        good = False
    if len(ours) < 200:
        print(f"ERROR: only {len(ours)} functions of the crate were examined")
        good = False
    n = len(ours) + c2["obligations"]
    return bad + b2, {"obligations": n, "discharged": n - len(bad) - len(b2) - len(und), "undecided": len(und),
                      "function_instances": len(ours), "functions_reaching_user_code": len([i for i in ours if i in user]),
                      "loops_and_recursions": nloops, "undecided_list": und, "controls": sorted(ctl),
                      "expressions_searched_for_unsafe_code": c2["expressions"],
                      "rule": "no unsafe code; every loop of the crate steps through a finite sequence or a counter; "
                              "no function reaches itself on the same structure"}, good


def countdown(prog, f, t):
    """A call one of whose arguments is an integer computed by arithmetic."""
    made = set()
    for b in f["body"]["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and (s[2][0] in ("bin", "binop", "checked") and any(a in ARITH for a in s[2] if isinstance(a, str))
                                or s[2][0] == "use" and locals_of(s[2]) & made):
                made.add(s[1][0])
    return bool(locals_of(t[2]) & made)


# ---------------------------------------------------------------- inventory

FORBIDDEN = {
    "leaks a value": ("core::mem::forget", "alloc::boxed::Box::<T>::leak", "alloc::boxed::Box::<T, A>::leak",
                      "alloc::boxed::Box::<T, A>::into_raw", "alloc::boxed::Box::<T>::into_raw", "core::mem::ManuallyDrop",
                      "alloc::vec::Vec::<T, A>::leak"),
    "shares mutable state": ("core::cell::", "core::sync::", "alloc::rc::", "alloc::sync::", "std::sync::", "std::cell::", "static "),
    "uses raw memory": ("core::ptr::", "core::mem::MaybeUninit", "core::mem::transmute", "core::mem::zeroed", "alloc::alloc::"),
    "needs std": ("std::",),
}

HARMLESS = ("core::ptr::eq", "core::ptr::addr_eq")
LOCAL = ("core::cell::", "alloc::rc::")


def facts(dump, thorough):
    f = dump.facts
    bad = []
    ours = ("", "veb_tree")

    def mine(u):
        return u["macro"] in ("", "desugaring") or u["macro"].startswith("veb_tree::")
    for u in f["unsafe"]:
        if mine(u):
            bad.append(("source", u["in"], u["what"], "unsafe", f"{u['what']} in {u['in'] or 'the crate root'}", u["at"], ()))
    for u in f["paths"]:
        if not mine(u):
            continue
        for why, pre in FORBIDDEN.items():
            # a cell local to a body is shared with nobody; one in a type or static is
            if u["what"].startswith(pre) and u["what"] not in HARMLESS and not (u["body"] and u["what"].startswith(LOCAL)):
                bad.append(("source", u["in"], u["what"], "use", f"{u['what']} {why}, in {u['in'] or 'the crate root'}", u["at"], ()))
                break
    if not f["no_std"]:
        bad.append(("source", "crate", "no_std", "std", "the crate links std", "src/lib.rs", ()))
    # floors counted on the unchanged tree: 5395 expressions, 343 functions, 195 paths
    good = f["exprs"] >= 1500 and len(f["fns"]) >= 120 and len(f["paths"]) >= 60 and len(f["unsafe"]) >= 1
    if not good:
        print("ERROR: the inventory is too small to be the crate's")
    n = f["exprs"] + f["items"] + len(f["paths"])
    return bad, {"obligations": n, "discharged": n - len(bad), "undecided": 0, "expressions": f["exprs"], "items": f["items"],
                 "functions": len(f["fns"]), "external_items_used": len(f["paths"]), "linked_crates": f["crates"],
                 "unsafe_from_external_macros": len([u for u in f["unsafe"] if not mine(u)]),
                 "rule": "no unsafe code outside macros of other crates, no leaking, raw-memory or shared-mutability item, no std"}, good


# ---------------------------------------------------------------- witnesses

def libraries(dump):
    """The compiled crate, and every directory its dependencies are in."""
    libs, dirs = [], set()
    for top, _, files in os.walk(os.path.join(dump.dir, "target")):
        if "incremental" in top:
            continue
        for x in files:
            if x.endswith((".rmeta", ".so", ".rlib")) and x.startswith("lib"):
                dirs.add(top)
                if x.startswith("libveb_tree-") and x.endswith(".rmeta"):
                    libs.append(os.path.join(top, x))
    return libs, sorted(dirs)


def compile_one(dump, path, src):
    """Type- and borrow-check one program; returns [(line, code, message)]."""
    out = os.path.join(dump.dir, "w_" + os.path.basename(path))
    with open(out, "w") as f:
        f.write(src)
    libs, dirs = libraries(dump)
    p = subprocess.run(["rustc", "+nightly", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--error-format=json",
                        "-Awarnings", "-o", out + ".rmeta"] + [x for d in dirs for x in ("-L", "dependency=" + d)]
                       + ["--extern", "veb_tree=" + libs[0], out],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for line in p.stderr.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("spans"):
            ls = [s["line_start"] for s in d["spans"] if s["is_primary"]] + [s["line_start"] for s in d["spans"]]
            errs.append((ls, (d.get("code") or {}).get("code") or "", d["message"]))
    if p.returncode and not errs:
        errs.append(([0], "", p.stderr[-300:]))
    return errs


def witness(dump, thorough):
    """Programs which must be rejected at the marked line, each with its twin
    (the same program without that line), which must be accepted."""
    d = os.path.join(ROOT, "witness")
    files = sorted(x for x in os.listdir(d) if x.endswith(".rs"))
    bad, rows, good = [], {}, len(files) >= 45

    def one(name):
        src = open(os.path.join(d, name)).read()
        lines = src.split("\n")
        mark = [i + 1 for i, l in enumerate(lines) if "//~ ERROR" in l]
        title = lines[0].lstrip("/! ")
        twin = "\n".join("" if i + 1 in mark else l for i, l in enumerate(lines))
        te = compile_one(dump, "twin_" + name, twin)
        if not mark:
            return name, title, mark, te, None
        return name, title, mark, te, compile_one(dump, name, src)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, files))
    held = 0
    for name, title, mark, te, we in res:
        w = name[:-3]
        if te and mark:
            # the surrounding program no longer type-checks: says nothing
            print(f"ERROR: witness {w}: its valid twin is rejected: {te[0][2]}")
            rows[w] = "twin rejected"
            good = False
        elif te:
            bad.append(("witness", w, "accepted program", "rejected", f"a valid program is rejected ({title}): {te[0][2]}", f"witness/{name}:{te[0][0][0]}", ()))
            rows[w] = "rejected"
        elif not mark:
            held += 1
            rows[w] = "accepted, as it must be"
        elif any(mark[0] in ls for ls, _, _ in we):
            held += 1
            rows[w] = "rejected " + ",".join(sorted({c for ls, c, _ in we if mark[0] in ls}))
        elif not we:
            bad.append(("witness", w, "rejected program", "accepted", f"a violating program type-checks ({title})", f"witness/{name}:{mark[0]}", ()))
            rows[w] = "accepted"
        else:
            # rejected, but elsewhere (a borrow reported at another line)
            held += 1
            rows[w] = f"rejected at another line {we[0][1]}"
    b2, n, missing = representation(dump)
    if missing:
        print("note: no public struct " + ", ".join(missing))
    und = len(files) - held - len(bad)
    bad += b2
    return bad, {"obligations": len(files) + n, "discharged": held + n - len(b2), "undecided": und, "programs": rows,
                 "fields_and_mutable_results": n,
                 "rule": "each violating program is rejected by the type and borrow checker, its twin without the violating line is accepted"}, good


HIDDEN = ("Tree", "SizedVebTree", "ByteSet", "ByteMap", "ArrayTreeCollection", "Iter", "U4", "U2")
MUTTRAITS = ("DerefMut", "IndexMut", "AsMut", "BorrowMut")


def representation(dump):
    """The structures whose contents obey an invariant expose no field, and hand
    out mutable access to nothing but values."""
    bad, n, seen = [], 0, set()
    for a in dump.facts["structs"]:
        base = a["name"].split("::")[-1]
        if base not in HIDDEN or not a["public"]:
            continue
        seen.add(base)
        for f, pub in a["fields"]:
            n += 1
            if pub:
                bad.append(("representation", base, f"field {f}", "public", f"field {f} of {a['name']} can be written from outside", a["at"], ()))
    for path, tys, pub, at, on, of, args in dump.facts["mut_results"]:
        n += 1
        if not pub:
            continue
        # access to values is what the mutable lookups are for
        value = args[1] if on == "Tree" and len(args) > 1 else None
        tys = [t for t in tys if not t.endswith("::Value") and t != value]
        if not tys:
            continue
        hit = on in HIDDEN and (not of or of in MUTTRAITS)
        if hit:
            bad.append(("representation", path, "mutable access", "public", f"{path} hands out &mut {tys[0]}", at, ()))
    missing = [h for h in HIDDEN if h not in seen]
    return bad, n, missing


RUN = {"calls": calls, "facts": facts, "returns": returns, "witness": witness}
