"""C12: Runge-Kutta integrators follow their tableaus for any timestep sequence (spec/Schemes.qnt, Steps.qnt, Integrator.tla)."""
LEVEL = "model_checking"
TECHNIQUE = "Quint specification of every scheme on exact fixed-point numbers (coefficients defined by interpolation, order conditions tested), TLA+ model of history and factorization cache; every step of recorded runs of the real integrators recomputed by the specification"
NOTE = "small exact problems (constants, Fourier, Jacobi with taus, sphere, disk) with algebraic rows, products and time-dependent forcing; states compared to 1e-9"
KIND = "RK"


def run(ck):
    import steps_drive
    ck.design("IntegratorMC")
    ck.quint_test("SchemesTest")
    ck.quint_simulate("Steps", *ck.pick((300, 12), (5000, 20)))
    schemes = getattr(steps_drive, KIND)
    jobs = [dict(seed="%s/%d/%d" % (KIND, ck.seed, i), n=ck.pick(40, 400), schemes=schemes) for i in range(8)]
    traces = [t for out in ck.parallel("steps_drive", "drive", jobs, timeout=800, what="timestepping") for t in out if t["ev"]]
    for t in traces:
        ck.count("scheme_" + t["scheme"])
        ck.count("space_" + t["cfg"][0])

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "step"][5]
        e["x"][0] += 1e-6
        return ts
    ck.quint_validate("StepsTrace", traces, steps_drive.quint, neg)
