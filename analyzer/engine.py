"""Obligations: one per (operation, case of the partition).  Each is decided by
abstract interpretation of the operation's MIR over every path of that case."""
from domain import *
from interp import Run, explore
import contracts
import models_std
import models_coll
import models_iter

MODELS = dict(models_std.STD)
MODELS.update(models_coll.STD)
MODELS.update(models_iter.STD)


class Bad(Exception):
    """A definite contradiction found by an oracle: a wrong answer."""
    kind = "answer"


class BadState(Bad):
    """... a wrong state left behind, which later calls build on."""
    kind = "state"


class BadKept(BadState):
    """... what a failed operation hands back is not what it was given."""
    kind = "kept"


def kept(f, *args):
    """Run a state check on what a failed operation handed back."""
    try:
        return f(*args)
    except BadState as e:
        raise BadKept(str(e)) from None


class Result:
    __slots__ = ("suite", "op", "case", "verdict", "kind", "detail", "where", "paths", "steps", "fns", "stack", "cost", "calls", "used")

    def __init__(self, suite, op, case):
        self.suite, self.op, self.case = suite, op, case
        self.verdict, self.detail, self.where = "held", "", ""
        self.paths = self.steps = 0
        self.kind = self.cost = ""
        self.fns, self.stack, self.calls, self.used = set(), (), 0, set()

    @property
    def id(self):
        return f"{self.suite}/{self.op}/{self.case}"


def decide(prog, suite, op, case, body, env=None, bounds=None, nonempty=None, limit=600):
    """One obligation; where it stays open and its case can be split into an
    exhaustive list of narrower ones, each of those is decided instead."""
    res = decide_one(prog, suite, op, case, body, env, bounds, nonempty, limit)
    parts = getattr(body, "parts", None)
    if res.verdict != "undecided" or parts is None:
        return res
    whole, n = Result(suite, op, case), 0
    for b, facts in parts():
        n += 1
        r = decide_one(prog, suite, op, case, b, env, bounds, facts, limit)
        whole.paths += r.paths
        whole.steps += r.steps
        whole.calls += r.calls
        whole.fns |= r.fns
        whole.used |= r.used
        whole.cost = whole.cost or r.cost
        if r.verdict != "held" and whole.verdict != "violation":
            whole.verdict, whole.detail, whole.where, whole.kind, whole.stack = r.verdict, r.detail, r.where, r.kind, r.stack
    res = whole if n else res
    probes = getattr(body, "probes", None)
    if res.verdict == "undecided" and probes is not None:
        for name, b, facts in probes():
            r = decide_one(prog, suite, op, case, b, env, bounds, facts, limit)
            res.paths += r.paths
            res.steps += r.steps
            if r.verdict == "violation":
                res.verdict, res.detail, res.where, res.kind, res.stack = r.verdict, r.detail, r.where, r.kind, r.stack
                break
    return res


def decide_one(prog, suite, op, case, body, env=None, bounds=None, nonempty=None, limit=600):
    """body(I) raises Bad / returns a problem string or None."""
    res = Result(suite, op, case)

    def mk(script):
        r = Run(prog, MODELS, script, bounds, nonempty)
        r.contracts = contracts.dispatch
        if env:
            r.env.update(env)
        return r
    bad = []
    soft_bad, ok, und = [], 0, []
    for run, out, e in explore(mk, body_wrap(body), limit):
        res.paths += 1
        res.steps += run.steps
        res.fns |= run.seen_fns
        res.used |= run.used
        if isinstance(e, Undecided):
            und.append(f"{e} (at {run.where}" + (f", in {' < '.join(reversed(e.stack[-4:]))})" if e.stack else ")"))
            continue
        prob = None
        stack, kind = (), ""
        if run.env.get("cost_bad") and not run.imprecise:
            res.cost = run.env["cost_bad"]
        res.calls += run.env.get("calls", 0)
        if isinstance(e, Panic):
            prob, kind = f"panic: {e.what}", "panic"
            where, stack = e.where, e.stack
        elif out is not None:
            (kind, prob), where = out, run.where
        if prob is None:
            ok += 1
        elif run.imprecise:
            soft_bad.append((prob, where, run, stack, kind))
        else:
            bad.append((prob, where, run, stack, kind))
    if not res.paths:
        und.append("no feasible path")
    if not bad and soft_bad and not ok and not und:
        bad = soft_bad
    if bad:
        prob, where, run, stack, res.kind = bad[0]
        res.verdict, res.detail, res.where = "violation", prob, where
        res.stack = tuple(stack) or tuple(dict.fromkeys(prog.fns[i]["name"] for i in run.order if prog.fns[i]["path"].find("veb_tree") >= 0))
        ch = [f"{lab}={v}" for v, n, lab, imp in run.trace]
        if ch:
            res.detail += "  [case split: " + "; ".join(ch) + "]"
    elif soft_bad or und:
        res.verdict = "undecided"
        res.detail = und[0] if und else f"possible {soft_bad[0][0]} at {soft_bad[0][1]}, but only after {soft_bad[0][2].imprecise[0]}"
    return res


def body_wrap(body):
    def g(I):
        try:
            return body(I)
        except Bad as e:
            return e.kind, str(e)
    return g


def new_run(prog, env=None, bounds=None, nonempty=None):
    r = Run(prog, MODELS, [], bounds, nonempty)
    r.contracts = contracts.dispatch
    if env:
        r.env.update(env)
    return r


def root(I, name, *args):
    fid = I.P.roots.get(name)
    if fid is None:
        raise Undecided(f"missing root {name}")
    return I.call_fn(fid, list(args))


def cost(I, what, ev, allowed):
    """At most `allowed` of the calls into the structures inside are not constant-time."""
    total = sum(x for _, _, x in ev)
    if total > allowed:
        I.env["cost_bad"] = f"{what} makes {total} non-constant recursive calls instead of at most {allowed}: " + ", ".join(f"{a}.{b}" for a, b, x in ev if x)


def split_events(I):
    ev = I.events
    I.events = []
    return ev
