"""Development aid: every obligation of every property in one go.

    VEB_REPO=/some/copy python3 analyzer/everything.py

Prints violations, open obligations and setup failures; exit status 1 if any."""
import sys
import driver
import extras
import plans


def main():
    d = driver.Dump()
    n = bad = und = 0
    try:
        plan = {"own": plans.ALL + list(plans.CLONES)}
        out = driver.decide_plan(d.prog, plan, False)
        viol, cov, good = driver.judge(out, d, plan, "debug")
        n, und = cov["obligations"], cov["undecided"]
        for k, t in cov["undecided_list"].items():
            print(f"  undecided {k}: {t[:400]}")
        for name in ("witness", "facts", "calls", "returns"):
            v, c, g = extras.RUN[name](d, False)
            viol += v
            und += c["undecided"]
            for k, t in c.get("undecided_list", {}).items():
                print(f"  undecided {name} {k}: {t}")
            good = good and g
        ctl = driver.controls(d.prog, plan)
        for k, h in ctl.items():
            if not h:
                print("  control unnoticed:", k)
                good = False
        for b in viol[:12]:
            print(f"  VIOLATED {b[0]}/{b[1]}/{b[2]} ({b[3]}): {str(b[4])[:300]} at {b[5]}")
        bad = len(viol)
    finally:
        d.close()
    print(f"{n} obligations, {und} undecided, {bad} violations, {'complete' if good else 'INCOMPLETE'}")
    sys.exit(1 if bad or not good or und else 0)


main()
