"""C13: the CFL controller (spec/CFL.tla).  Quantities are dyadic so that the float arithmetic of the
implementation is exact (up to the grid spacing, for velocity frequencies) and traces are integers."""
LEVEL = "model_checking"
TICK = 2.0 ** -24
UNIT = 1 << 20


def ticks(dt):
    import math
    if not math.isfinite(dt):
        return 2000000000 if dt > 0 else -1
    v = dt / TICK
    r = round(v)
    return int(r) if abs(v - r) <= 1e-9 * max(1, abs(v)) and r < 2 ** 31 else -2


def drive(seed, n, nev):
    import random
    from ded import np, d3
    rng = random.Random(seed)
    traces = []
    for k in range(n):
        kind = rng.choice(["freq", "freq2", "velocity", "mixed"])
        N = 8
        coords = d3.CartesianCoordinates('x', 'y')
        dist = d3.Distributor(coords, dtype=np.float64)
        Lx = N * 2.0 ** rng.randint(-2, 2)
        Ly = 16 * 2.0 ** rng.randint(-2, 2)
        dealias = rng.choice([1, 3/2]) if kind == "velocity" else 1
        xb = d3.RealFourier(coords['x'], size=N, bounds=(0, Lx), dealias=dealias)
        yb = d3.RealFourier(coords['y'], size=16, bounds=(0, Ly), dealias=dealias)
        u = dist.VectorField(coords, name='u', bases=(xb, yb))
        f1 = dist.Field(name='f1', bases=(xb, yb))
        f2 = dist.Field(name='f2', bases=(xb, yb))
        v = dist.Field(name='v', bases=(xb, yb))
        problem = d3.IVP([v], namespace={})
        problem.add_equation((d3.dt(v), 0))
        solver = problem.build_solver(rng.choice([d3.SBDF1, d3.RK222]))
        init_iter = rng.choice([0, 0, 0, 3, 8])
        solver.iteration = solver.initial_iteration = init_iter
        mc = rng.choice([0, 6, 8, 8, 16])
        c = {"init_dt": rng.choice([1, 2, 8, 16, 64]) * (UNIT // 16), "safety": rng.choice([4, 6, 8, 12, 16]),
             "cadence": rng.choice([1, 1, 2, 3, 10]), "max_dt": rng.choice([0, 1, 2, 8, 16]) * UNIT,
             "min_dt": rng.choice([0, 0, 1, 4]) * (UNIT // 16), "max_change": mc,
             "min_change": 0 if mc == 6 else rng.choice([0, 1, 2]), "threshold": rng.choice([0, 1, 3, 5]),
             "init_iter": init_iter}
        if c["max_dt"] == 0 and c["max_change"] == 0:
            c["max_dt"] = 4 * UNIT
        kw = dict(initial_dt=c["init_dt"] * TICK, cadence=c["cadence"], safety=c["safety"] / 16, threshold=c["threshold"] / 16)
        if c["max_dt"]: kw["max_dt"] = c["max_dt"] * TICK
        if c["min_dt"]: kw["min_dt"] = c["min_dt"] * TICK
        if c["max_change"]: kw["max_change"] = c["max_change"] / 4
        if c["min_change"]: kw["min_change"] = c["min_change"] / 4
        cfl = d3.CFL(solver, **kw)
        if kind in ("freq", "freq2", "mixed"): cfl.add_frequency(f1)
        if kind == "freq2": cfl.add_frequency(f2)
        if kind in ("velocity", "mixed"): cfl.add_velocity(u)
        x, y = dist.local_grids(xb, yb)
        dx, dy = Lx / N, Ly / 16

        def wave(a, b):
            """a + b cos(2 pi x / L): the grid of 8 hits 1, 0, -1 of the cosine; other points are below."""
            return [a + b, a, a - b]
        evs = []
        for e in range(nev):
            it = int(solver.iteration)
            for rep in range(rng.choice([1, 1, 1, 2])):
                dt = cfl.compute_timestep()
                evs.append({"op": "compute", "it": it, "dt": ticks(dt), "freqs": []})
            # new frequencies: amplitudes so that the largest total is a power of two (or zero)
            F = rng.choice([0 if c["max_dt"] else 2, 1, 2, 4, 8, 16, 32, 64])
            s = rng.choice([-1, 1])
            if kind == "freq" or kind == "velocity":
                parts = [F]
            else:
                p = rng.randint(0, F)
                parts = [p, F - p]
            vals = []
            for p in parts:
                b = rng.randint(0, p)
                vals.append(((p - b) * s, b * s))
            for fld, (a, b) in zip([f1, f2] if kind != "velocity" else [], vals):
                fld['g'] = a + b * np.cos(2 * np.pi * x / Lx) + 0 * y
            freqs = [wave(a, b) for a, b in vals]
            if kind in ("velocity", "mixed"):
                a, b = vals[-1]
                q = rng.randint(0, abs(a) + abs(b))
                # |u_x|/dx + |u_y|/dy: split the frequency between the two components
                u.change_scales(1)
                u['g'] = 0
                if b == 0:
                    u['g'][0] = np.sign(a) * (abs(a) - min(q, abs(a))) * dx
                    u['g'][1] = -min(q, abs(a)) * dy
                else:
                    if rng.random() < 0.5:
                        u['g'][0] = (a + b * np.cos(2 * np.pi * x / Lx)) * dx
                    else:
                        u['g'][1] = (a + b * np.cos(2 * np.pi * x / Lx)) * dy
            evs.append({"op": "step", "it": it, "dt": 0, "freqs": freqs})
            solver.step(dt)
        traces.append({"cfg": c, "ev": evs})
    return traces


def run(ck):
    ck.design("CFLMC")
    with ck.driving("running the CFL controller"):
        traces = drive(ck.seed, ck.pick(60, 400), ck.pick(30, 80))
    par = []
    for n in ck.pick([5], [2, 3, 5, 8]):
        res = ck.mpi_call(n, "check_c13", "drive", seed=ck.seed + n, n=ck.pick(8, 30), nev=20)
        for r in range(1, n):
            if res[r] != res[0]:
                ck.violation("timesteps differ between processes", {"rank": r})
        par += res[0]

    def corrupt(ts):
        ts[0]["ev"][-2]["dt"] += 1
        return ts
    ck.validate("CFLTrace", traces + par, negative=corrupt)
