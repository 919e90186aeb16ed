"""C18: curvilinear operators agree with Cartesian calculus (spec/Calc.tla)."""
from calc_checks import run_mixed, obs_value
LEVEL = "model_checking"
NOTE = 'random compositions of operators on the disk, annulus, sphere, ball, shell and cylinder, on fields that are restrictions of Cartesian polynomials. The exact Laurent-polynomial value of every expression is computed by TLC from the recorded data of its leaves and compared with the evaluated field; inputs are random within the exactly representable range.'


def run(ck):
    kinds = ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]
    ck.design("CalcMC", "CalcMCdeep.cfg", workers=8) if ck.pick(False, True) else None
    plan = [("calc_drive", ck.pick(14, 18), k, "plain", ck.pick(13, 150), ck.pick(3, 8)) for k in kinds]
    plan += [("calc_drive", ck.pick(5, 8), k, "chain", ck.pick(8, 100), ck.pick(3, 8)) for k in kinds]
    run_mixed(ck, plan, obs_value)
