"""Shared by the checks of the Calc machine."""


def run(ck, plan, corrupt, design=None, steps=20):
    """plan: [(kind, mode, traces per job, jobs)]"""
    if design:
        ck.design("CalcMC", design, workers=8)
    run_with(ck, "calc_drive", plan, corrupt, steps)


def run_with(ck, driver, plan, corrupt, steps):
    run_mixed(ck, [(driver, steps) + p for p in plan], corrupt)


def run_mixed(ck, plan, corrupt):
    """plan: [(driver, steps, kind, mode, traces per job, jobs)]"""
    jobs = [dict(driver=d, seed=ck.seed * 1000 + j, n=n, kind=kind, mode=mode, steps=steps) for d, steps, kind, mode, n, k in plan for j in range(k)]
    jobs.sort(key=lambda j: -j["n"] * (1 if j["kind"] == "cart" else 5))
    res = ck.parallel("any_drive", "drive", jobs, what="driving expressions", timeout=800)
    traces = [t for r in res for t in r["traces"]]
    for r in res:
        for k, v in r["stats"].items():
            ck.count(k, v)
    for j in jobs:
        ck.count("traces_" + j["kind"], j["n"])
    for i in range(0, len(traces), 1500):
        ck.validate("CalcTrace", traces[i:i + 1500], negative=(lambda ts: corrupt_some(ts, corrupt)) if i == 0 else None, workers=8)


def corrupt_some(ts, corrupt):
    for t in ts:
        for e in t["ev"]:
            if corrupt(e):
                return [t]
    raise AssertionError("nothing to corrupt")


def obs_value(e):
    """Change one coefficient of an observation."""
    if e["op"] != "obs":
        return False
    for o in e["o"]:
        for c in o["v"]:
            if c:
                c[0][1] += 1
                return True
    return False
