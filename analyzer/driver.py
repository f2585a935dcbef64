"""check <property> [--tier quick|thorough] [--only SUITE/OP/CASE]

Dumps the MIR of /repo's current tree, decides the property's obligations by
abstract interpretation and writes evidence/<property>.json.  Exit 0: every
decided obligation holds; 1: VIOLATION; 2: the analysis itself failed."""
import argparse
import collections
import json
import os
import pickle
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VEB_REPO", "/repo")
sys.path.insert(0, HERE)

from domain import *          # noqa: E402
from interp import Program    # noqa: E402
import engine                 # noqa: E402
import obligations as ob      # noqa: E402
import plans                  # noqa: E402

WORKERS = int(os.environ.get("VEB_WORKERS", "8"))


class Broken(Exception):
    """The check cannot give an answer."""


# ------------------------------------------------------------------ dumping

def sh(cmd, cwd=None, env=None, what="command"):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken(f"{what} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def nightly_lib():
    return sh(["rustc", "+nightly", "--print", "sysroot"], what="rustc").strip() + "/lib"


def build_dumper():
    out = os.path.join(ROOT, "dumper/target/release/vebdump")
    sh(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(ROOT, "dumper"), what="building the MIR dumper")
    if not os.path.exists(out):
        raise Broken("no dumper")
    return out


class Dump:
    """The harness and /repo compiled into a scratch directory under /verif/build."""

    def __init__(self, flags="", tag=""):
        self.dir = os.path.join(ROOT, "build", f"{os.getpid()}{tag}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        try:
            dumper = build_dumper()
            env = dict(os.environ, VEBDUMP_OUT=self.dir, RUSTC_WRAPPER=dumper, LD_LIBRARY_PATH=nightly_lib(),
                       RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings " + flags,
                       CARGO_TARGET_DIR=os.path.join(self.dir, "target"), CARGO_INCREMENTAL="0")
            env.pop("RUSTC_WORKSPACE_WRAPPER", None)
            harness = os.path.join(ROOT, "harness")
            if REPO != "/repo":
                h2 = os.path.join(self.dir, "harness")
                shutil.copytree(harness, h2, ignore=shutil.ignore_patterns("target"))
                t = open(os.path.join(h2, "Cargo.toml")).read().replace('"/repo"', f'"{REPO}"')
                open(os.path.join(h2, "Cargo.toml"), "w").write(t)
                harness = h2
            sh(["cargo", "+nightly", "check", "--offline", "-q"], cwd=harness, env=env, what="type-checking /repo with the harness")
            self.facts = json.load(open(os.path.join(self.dir, "facts.json")))
            self.prog = Program(os.path.join(self.dir, "mir.json"))
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ deciding

Job = collections.namedtuple("Job", "suite ops full")


class Tally:
    """What the workers found for one (suite, op)."""

    def __init__(self):
        self.n = self.held = self.viol = self.und = self.paths = self.steps = self.calls = 0
        self.sample = ""

    def add(self, o):
        for k in ("n", "held", "viol", "und", "paths", "steps", "calls"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.sample = self.sample or o.sample


def work(fac, jobs, idx, only):
    tallies, bad, und, fns, used = {}, [], {}, set(), set()
    n = 0
    for job in jobs:
        for x in fac.items(job.suite, job.ops, job.full):
            n += 1
            if n % WORKERS != idx:
                continue
            su, op, case, body, nonempty, env, bounds = x
            if only and f"{su}/{op}/{case}" != only:
                continue
            r = engine.decide(fac.P, su, op, case, body, env=env, bounds=bounds, nonempty=nonempty)
            t = tallies.setdefault((job.suite, op), Tally())
            t.n += 1
            t.paths += r.paths
            t.steps += r.steps
            t.calls += r.calls
            t.sample = t.sample or case
            fns |= r.fns
            used |= r.used
            if r.verdict == "held":
                t.held += 1
            elif r.verdict == "violation":
                t.viol += 1
                if sum(1 for b in bad if b[0] == job.suite and b[1] == op and b[3] == r.kind) < 8:
                    bad.append((job.suite, op, case, r.kind, r.detail, r.where, r.stack))
            else:
                t.und += 1
                und.setdefault((job.suite, op), f"{case}: {r.detail}")
            if r.cost and sum(1 for b in bad if b[0] == job.suite and b[1] == op and b[3] == "cost") < 8:
                bad.append((job.suite, op, case, "cost", r.cost, r.where, r.stack))
    return tallies, bad, und, fns, used


def parallel(fac, jobs, only=None):
    for j in jobs:
        fac.get(j.suite)
        if j.suite == "tree":
            fac.worlds(("same", "inc", "dec"))
    outs = []
    for i in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = pickle.dumps(("ok", work(fac, jobs, i, only)))
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        outs.append((pid, r))
    res = []
    for pid, r in outs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise Broken("a worker died")
        st, val = pickle.loads(data)
        if st == "err":
            raise Broken("internal error\n" + val)
        res.append(val)
    return res


class Outcome:
    def __init__(self):
        self.tallies, self.bad, self.und, self.fns, self.used = {}, [], {}, set(), set()
        self.setup = {}

    def merge(self, o):
        for k, t in o[0].items():
            self.tallies.setdefault(k, Tally()).add(t)
        self.bad += o[1]
        for k, v in o[2].items():
            self.und.setdefault(k, v)
        self.fns |= o[3]
        self.used |= o[4]


def decide_plan(prog, plan, thorough, only=None):
    """Runs own, hist and, until nothing new is relied on, their closure."""
    fac = ob.Factory(prog, thorough)
    out = Outcome()
    roles = {}                                # (suite, op) -> kinds that count, or None for any
    own = set()
    todo = []

    def want(entries, full, mine):
        for s, ops, kinds in entries:
            for o in ops:
                k = (s, o)
                if mine:
                    own.add(k)
                if k in roles:
                    if roles[k] is not None:
                        roles[k] = None if kinds is None else tuple(set(roles[k]) | set(kinds))
                else:
                    roles[k] = kinds
                    todo.append((s, o, full))
    want(plan["own"], True, True)
    want(plan.get("hist", ()), thorough, False)
    rounds = 0
    while todo:
        rounds += 1
        groups = {}
        for s, o, full in todo:
            groups.setdefault((s, full), []).append(o)
        del todo[:]
        jobs = [Job(s, tuple(o), full) for (s, full), o in groups.items()]
        used = set()
        for x in parallel(fac, jobs, only):
            out.merge(x)
            used |= x[4]
        if not only and not plan.get("no_closure"):
            want(plans.closure(used), thorough, False)
    for s, f in fac.failed.items():
        out.setup[s] = f
    out.roles, out.own, out.rounds = roles, own, rounds
    return out


def controls(prog, plan):
    """Known-wrong variants: another operation in place of the one examined."""
    done = {}
    for s, ops, kinds in plan["own"]:
        if kinds and "answer" not in kinds and "state" not in kinds:
            continue
        for o in ops:
            q = ob.swapped(prog, s, o)
            if q is None:
                continue
            fac = ob.Factory(q)
            n = hit = open_ = 0
            for i, x in enumerate(fac.items(s, (o,), False)):
                if x[1] != o or i % 97 not in (0, 1, 40) and i > 60:
                    continue
                n += 1
                r = engine.decide(q, *x[:4], env=x[5], bounds=x[6], nonempty=x[4])
                if r.verdict == "violation":
                    hit += 1
                    break
                open_ += r.verdict == "undecided"
                if n > 400:
                    break
            # nothing to notice where the operation cannot be followed at all
            if not n and fac.failed.get(s):
                hit, open_ = fac.failed[s][0] == "violation", 1
            done[f"{s}/{o} replaced by {ob.SWAP[o]}"] = True if hit else "undecided" if open_ * 2 > n else False
    return done


# ------------------------------------------------------------------ reporting

def known(pid):
    keys = {}
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(p.split("=", 1) for p in line[8:].split("|")[0].split() if "=" in p)
                if f.get("property") == pid:
                    keys[f["key"]] = line.split("|", 1)[1].strip() if "|" in line else f["key"]
    except FileNotFoundError:
        pass
    return keys


def key_of(b):
    """Identifies a violation without line numbers."""
    return f"{b[0]}/{b[1]}/{b[2]}".replace(" ", "_")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    args = ap.parse_args()
    pid, t0 = args.property, time.time()
    thorough = args.tier == "thorough"
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    plan = plans.PLANS[pid]
    try:
        code = run(pid, plan, thorough, args, t0)
    except Broken as e:
        print(f"ERROR property={pid}: {e}")
        code = 2
    sys.stdout.flush()
    sys.exit(code)


def run(pid, plan, thorough, args, t0):
    dump = Dump()
    try:
        return run2(pid, plan, thorough, args, t0, dump)
    finally:
        dump.close()


def run2(pid, plan, thorough, args, t0, dump):
    violations = []
    cov = {}
    notes = []
    ok = True
    if plan["own"]:
        variants = [("debug", dump)]
        if thorough:
            rel = Dump("-Coverflow-checks=off -Cdebug-assertions=off", "r")
            rel.close()
            variants.append(("release", rel))
        for tag, d in variants:
            out = decide_plan(d.prog, plan, thorough, args.only)
            v, c, good = judge(out, d, plan, tag)
            violations += v
            cov[tag] = c
            ok = ok and good
        if not args.only:
            ctl = controls(dump.prog, plan)
            cov["positive_controls"] = ctl
            if not all(ctl.values()) and not violations:
                print("ERROR: a known-wrong variant went unnoticed: " + ", ".join(k for k, h in ctl.items() if not h))
                ok = False
    if plan.get("extra"):
        import extras
        v, c, good = extras.RUN[plan["extra"]](dump, thorough)
        violations += v
        cov[plan["extra"]] = c
        ok = ok and good
    kn = known(pid)
    fresh = []
    for b in violations:
        k = key_of(b)
        if k in kn:
            if k not in notes:
                notes.append(k)
                print(f"KNOWN-FINDING: property={pid} {kn[k]}")
        else:
            fresh.append(b)
    tot = [c for c in cov.values() if isinstance(c, dict) and "obligations" in c]
    summary = {
        "explanation": plans.EXPLAIN[plan.get("extra", "abs")] if not plan["own"] else plans.EXPLAIN["abs"],
        "obligations": sum(c["obligations"] for c in tot),
        "discharged": sum(c["discharged"] for c in tot),
        "undecided": sum(c.get("undecided", 0) for c in tot),
    }
    summary.update(cov)
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "other", "coverage": summary, "assumptions": plans.ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"{pid}: {summary['discharged']} of {summary['obligations']} obligations hold, {summary['undecided']} undecided, "
          f"{len(fresh)} violations reported, {ev['wall_s']} s")
    for tag, c in cov.items():
        if isinstance(c, dict) and c.get("undecided_list"):
            for k, d in list(c["undecided_list"].items())[:10]:
                print(f"  undecided {k}: {d}")
    if fresh:
        rp = os.path.join(ROOT, "evidence", f"replay-{pid}.txt")
        with open(rp, "w") as f:
            f.write(report(pid, fresh))
        b = fresh[0]
        print(f"  {b[0]}/{b[1]}: {b[4]}")
        if b[5]:
            print(f"  at {b[5]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not ok:
        print(f"ERROR property={pid}: the analysis did not reach what the property needs")
        return 2
    return 0


def judge(out, dump, plan, tag):
    prog = dump.prog
    viol = []
    costed = {(s, o) for s, ops, kinds in plan["own"] if kinds and "cost" in kinds for o in ops}
    for b in out.bad:
        kinds = out.roles.get((b[0], b[1]))
        if (b[0], b[1]) not in out.roles:
            kinds = out.roles.get((b[0], "*"))
        if b[3] == "cost":
            if (b[0], b[1]) in costed:
                viol.append(b)
        elif kinds is None or b[3] in kinds:
            viol.append(b)
    fine = True
    lost = {}
    for s, (verdict, kind, detail) in out.setup.items():
        if verdict == "violation":
            kinds = [k for (s2, _), k in out.roles.items() if s2 == s]
            if any(k is None or kind in k or kind == "answer" and "state" in k for k in kinds):
                viol.append((s, "setup", "building the sample states", kind, detail, "", ()))
        else:
            # none of this suite's obligations could be formed; the others stand
            lost[s] = detail
            print(f"  undecided: all of {s}: {detail}")
    own_n = own_held = 0
    rows = {}
    for (s, o), t in sorted(out.tallies.items()):
        mine = (s, o) in out.own or (s, "*") in out.own
        rows[f"{s}/{o}"] = {"role": "property" if mine else "relied on", "cases": t.n, "held": t.held, "violated": t.viol,
                            "undecided": t.und, "paths": t.paths, "mir_statements": t.steps, "first_case": t.sample}
        if mine:
            own_n += t.n
            own_held += t.held + t.viol
    # every operation the property names must have been examined
    missing = [f"{s}/{o}" for s, o in sorted(out.own)
               if s not in out.setup and o != "*" and (s, o) not in out.tallies and (s, o) not in plans.OPTIONAL]
    if missing and not plan.get("only"):
        print("ERROR: no obligation for " + ", ".join(missing))
        fine = False
    if own_held * 10 < own_n or lost and not own_held:
        print(f"ERROR: only {own_held} of {own_n} obligations could be decided")
        fine = False
    names = sorted({prog.fns[i]["name"] for i in out.fns if "veb_tree" in prog.fns[i]["path"]})
    cov = {
        "obligations": sum(t.n for t in out.tallies.values()),
        "discharged": sum(t.held for t in out.tallies.values()),
        "undecided": sum(t.und for t in out.tallies.values()) + len(lost),
        "suites_not_formed": lost,
        "paths": sum(t.paths for t in out.tallies.values()),
        "mir_statements_interpreted": sum(t.steps for t in out.tallies.values()),
        "rounds": out.rounds,
        "functions_of_the_crate": len(names),
        "function_names": names,
        "functions_total": len(out.fns),
        "contracts_relied_on": sorted(out.used),
        "by_operation": rows,
        "undecided_list": {f"{s}/{o}": d for (s, o), d in out.und.items()},
        "samples": [f"{s}/{o}/{t.sample}" for (s, o), t in sorted(out.tallies.items())][:12],
    }
    return viol, cov, fine


def report(pid, bad):
    out = [f"property {pid}: {len(bad)} failing obligations (at most 8 per operation and worker are listed)", ""]
    for b in bad[:200]:
        out.append(f"[{b[0]}/{b[1]}] {b[2]}  ({b[3]})")
        out.append(f"    {b[4]}")
        if b[5]:
            out.append(f"    at {b[5]}")
        if b[6]:
            out.append("    through " + " > ".join(str(x) for x in b[6]))
        out.append(f"    repeat: ./check {pid} --only '{b[0]}/{b[1]}/{b[2]}'")
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    main()
