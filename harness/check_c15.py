"""C15: equations are accepted exactly when well posed, and split into parts that add up (spec/Eqn.tla)."""
from calc_checks import run_with, obs_value
LEVEL = "model_checking"
NOTE = 'Random left and right sides over the Calc machine (variables, parameters, time or eigenvalue field, time derivatives, nonlinear terms, mismatched shapes and domains) are given to IVP, LBVP, EVP and NLBVP problems in Cartesian and curvilinear geometries. Accept of spec/Eqn.tla decides which must be accepted; mass, stiffness, forcing, residual and Frechet parts of accepted equations are evaluated and compared with the exact functions TLC derives. EqnMC checks on all small expressions that accepted equations are linear and their parts add up. Refusals the code declares as unsupported features are not judged.'


def corrupt(e):
    if e["op"] == "eqn" and e["res"]:
        e["res"] = False
        return True
    return False


def run(ck):
    ck.design("EqnMC", ck.pick("EqnMC.cfg", "EqnMCdeep.cfg"), workers=8)
    plan = [("cart", "tuple", ck.pick(70, 400), ck.pick(8, 16))]
    plan += [(k, "tuple", ck.pick(16, 120), ck.pick(1, 4)) for k in ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]]
    run_with(ck, "eqn_drive", plan, corrupt, steps=16)
