"""C28: user functions and locks see fields in their declared layout (spec/Calc.tla)."""
from calc_checks import run as run_calc, obs_value
LEVEL = "model_checking"
NOTE = 'UnaryGridFunction, GeneralFunction (in every layout) and Lock/Grid/Coeff nodes in random expressions; the functions themselves check layout and scales of their arguments; locked fields are walked through layouts. The exact Laurent-polynomial value of every expression is computed by TLC from the recorded data of its leaves and compared with the evaluated field; inputs are random within the exactly representable range.'


def run(ck):
    plan = [("cart", "user", ck.pick(60, 400), ck.pick(8, 16))]
    plan += [(k, "user", ck.pick(14, 150), ck.pick(1, 4)) for k in ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]]
    run_calc(ck, plan, obs_value, steps=20)
