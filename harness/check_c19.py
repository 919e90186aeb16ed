"""C19: matrices are the operators they discretize, and solves solve the stated equations (spec/Eqn.tla, CalcTrace.tla)."""
from calc_checks import run_mixed
LEVEL = "model_checking"
NOTE = 'Random problems over the Calc machine: matrices of the mass, stiffness, residual-derivative parts of every accepted equation are applied to variable coefficients (raw per-expression matrices, and assembled, permuted, truncated square systems through gather/scatter) and must give the exact functions TLC derives from the equation text; manufactured linear boundary value problems (Fourier systems, tau-corrected Jacobi problems with random boundary conditions, disk, annulus, sphere, ball, shell, cylinder with Lift; random solver options and matrix solvers; repeated solves after changes of layouts and scales) must return states satisfying every stated equation exactly in TLC. Condition numbers below 1e7; coefficients resolved by the bases; EqnMC checks linearity of the accepted small expressions.'
KINDS = ["disk", "annulus", "sphere", "ball", "shell", "cylinder"]


def corrupt(e):
    if e["op"] == "solve":
        for v in e["vals"]:
            for c in v["v"]:
                if c:
                    c[0][1] += 1
                    return True
    return False


def run(ck):
    ck.design("EqnMC", ck.pick("EqnMC.cfg", "EqnMCdeep.cfg"), workers=8)
    p = ck.pick
    plan = [("eqn_drive", 16, "cart", "mat", p(25, 150), p(2, 8)),
            ("solve_drive", 12, "cart", "sq", p(25, 150), p(2, 8)),
            ("solve_drive", 12, "cart", "bvp", p(25, 150), p(2, 8))]
    for k in ["cart"] + KINDS:
        plan.append(("eqn_drive", 0, k, "pairs", 10 if k != "cart" else 20, p(4, 14) if k != "cart" else p(1, 6)))
    for k in KINDS:
        plan.append(("eqn_drive", 12, k, "mat", p(6, 50), p(1, 3)))
        plan.append(("solve_drive", 8, k, "sq", p(4, 40), p(1, 3)))
        plan.append(("solve_drive", 8, k, "bvp", p(6, 50), p(1, 3)))
    run_mixed(ck, plan, corrupt)
