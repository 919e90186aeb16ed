"""C16: symbolic transformations preserve values (spec/Calc.tla)."""
from calc_checks import run as run_calc, obs_value
LEVEL = "model_checking"
NOTE = 'split, replace, frechet_differential, reinitialize, expand, has, require_linearity and require_first_order on random expressions, transformed expressions evaluated on real data; expressions of all supported elementary functions, whose symbolic derivatives must agree with their values at five neighbouring points (Deriv). The design model CalcMC checks the specified transformations against their defining laws. The exact Laurent-polynomial value of every expression is computed by TLC from the recorded data of its leaves and compared with the evaluated field; inputs are random within the exactly representable range.'


def run(ck):
    plan = [("cart", "sym", ck.pick(60, 400), ck.pick(8, 16))]
    plan += [(k, "sym", ck.pick(14, 150), ck.pick(1, 4)) for k in ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]]
    run_calc(ck, plan, obs_value, ck.pick("CalcMC.cfg", "CalcMCdeep.cfg"), steps=24)
    ck.design("DerivMC")
    res = ck.parallel("deriv_drive", "drive", [dict(seed=ck.seed * 100 + j, n=ck.pick(60, 400)) for j in range(ck.pick(4, 8))], what="differentiating elementary functions")
    traces = [t for r in res for t in r["traces"]]
    ck.count("elementary_functions", len(traces))

    def wrong(ts):
        e = ts[0]["ev"][1]
        e["got"][0] += 100 + abs(e["got"][0]) // 200
        return ts
    ck.validate("DerivTrace", traces, negative=wrong, workers=4)
