"""C22: Newton iterations solve the linearized equations and fixed points are the roots (spec/Calc.tla Deriv, CalcTrace.tla Newton)."""
from calc_checks import run_mixed
LEVEL = "model_checking"
NOTE = 'Random nonlinear boundary value problems (products, powers, advective terms on either side, Fourier and tau-corrected Jacobi geometries; linear left sides with Lift in disk, annulus, sphere, ball, shell, cylinder). The residual is arranged so that the exact Newton step is a known field; after every iteration TLC checks F\'(X)(X1 - X) = -damping F(X) in exact arithmetic with the derivative and residual it derives itself, that lifted fields stay zero, that a root is left unchanged (zero steps), and the iteration count. Repeated iterations with states and parameters changed in between, random dampings, solver options, matrix solvers and field layouts. Jacobians with condition number above 1e7 are skipped; CalcMC checks on all small expressions that the derivative is the first-order term.'


def corrupt(e):
    if e["op"] == "newton":
        for v in e["vals"]:
            for c in v["v"]:
                if c:
                    c[0][1] += 1
                    return True
    return False


def run(ck):
    ck.design("CalcMC", ck.pick("CalcMC.cfg", "CalcMCdeep.cfg"), workers=8)
    plan = [("solve_drive", 12, "cart", "newton", ck.pick(40, 200), ck.pick(6, 16))]
    plan += [("solve_drive", 8, k, "newton", ck.pick(10, 60), ck.pick(1, 3)) for k in ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]]
    run_mixed(ck, plan, corrupt)
