"""C04: evaluation gives the value at the current data, whatever came before (spec/Calc.tla)."""
from calc_checks import run as run_calc, obs_value
LEVEL = "model_checking"
NOTE = 'histories interleaving definitions, leaf updates, layout and scale changes, direct evaluations and dictionary handlers sharing subexpressions. The exact Laurent-polynomial value of every expression is computed by TLC from the recorded data of its leaves and compared with the evaluated field; inputs are random within the exactly representable range.'


def run(ck):
    plan = [("cart", "eval", ck.pick(60, 400), ck.pick(8, 16))]
    plan += [(k, "eval", ck.pick(14, 150), ck.pick(1, 4)) for k in ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]]
    run_calc(ck, plan, obs_value, steps=ck.pick(26, 34))
