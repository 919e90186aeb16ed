"""C10: the IVP time loop (spec/SolverLoop.tla)."""
LEVEL = "model_checking"
TICK = 1 / 64


def ticks(x):
    import math
    v = float(x) / TICK
    r = round(v) if math.isfinite(v) else -999999
    return int(r) if abs(v - r) < 1e-6 else -888888


def drive(seed, n, nev):
    import random, time
    from ded import np, d3
    rng = random.Random(seed)
    clock = [1000.0]

    def now():
        clock[0] += 1e-11   # strictly increasing, far below a tick
        return clock[0]
    real = {k: getattr(time, k) for k in ("time", "perf_counter", "monotonic")}
    traces = []
    schemes = [d3.CNAB1, d3.SBDF1, d3.CNAB2, d3.MCNAB2, d3.SBDF2, d3.CNLF2, d3.SBDF3, d3.SBDF4, d3.RK111, d3.RK222, d3.RK443, d3.RKSMR, d3.RKGFY]
    try:
        for k in real:
            setattr(time, k, now)
        for k in range(n):
            dtype = rng.choice([np.float64, np.complex128])
            coord = d3.Coordinate('x')
            dist = d3.Distributor(coord, dtype=dtype)
            basis = d3.Fourier(coord, size=8, bounds=(0, 2 * np.pi), dealias=rng.choice([1, 3/2]), dtype=dtype)
            x = dist.local_grid(basis)
            u = dist.Field(name='u', bases=basis)
            problem = d3.IVP([u], namespace={})
            problem.add_equation((d3.dt(u), 1))
            t0, u0 = rng.choice([0, 0, 64, 7]), rng.choice([0, 5, -64])
            if t0:
                problem.time['g'] = t0 * TICK
            scheme = rng.choice(schemes)
            solver = problem.build_solver(scheme, enforce_real_cadence=rng.choice([1, 2, 3, 100, None]), warmup_iterations=rng.choice([0, 2, 10]))
            u['g'] = u0 * TICK + 2 * np.cos(x)
            it0 = 0
            calls = []
            h = solver.evaluator.add_dictionary_handler(iter=1)
            h.add_task(u, name='u')
            orig = h.process
            pattern = 2 * np.cos(x)
            shape_ok = [True]

            def mean(f):
                g = np.asarray(f['g'])
                f.change_scales(1)
                g = f['g'] - pattern
                if np.ptp(g.real) > 1e-8 or np.max(np.abs(g.imag)) > 1e-8:
                    shape_ok[0] = False
                return ticks(np.mean(g).real)

            def proc(**kw):
                orig(**kw)
                calls.append({"it": int(kw['iteration']), "t": ticks(kw['sim_time']), "dt": ticks(kw['timestep']), "u": mean(h['u'])})
            h.process = proc
            evs = []

            def obs():
                return {"it": int(solver.iteration), "t": ticks(solver.sim_time), "pt": ticks(solver.problem.time['g'].ravel()[0].real),
                        "u": mean(u) if shape_ok[0] else -777777, "proceed": bool(solver.proceed)}
            w = 0
            for e in range(nev):
                calls.clear()
                r = rng.random()
                ev = {"dt": 0, "w": 0, "t": 0, "dts": [], "refused": False, "stopT": 0, "stopW": 0, "stopI": 0}
                if r < 0.5:
                    dt = rng.choice([1, 2, 2, 2, 4, 16, 64])
                    ev.update(op="step", dt=dt)
                    solver.step(dt * TICK)
                elif r < 0.58:
                    ev.update(op="badstep")
                    try:
                        solver.step(rng.choice([np.nan, np.inf, -np.inf]))
                    except ValueError:
                        ev["refused"] = True
                elif r < 0.75:
                    N = 1000000000
                    a = rng.choice([N, ticks(solver.sim_time) + rng.choice([-1, 0, 1, 5, 64])])
                    b = rng.choice([N, 0])
                    c = rng.choice([N, int(solver.iteration) + rng.choice([-1, 0, 1, 6])])
                    wt = ticks(solver.wall_time)
                    b = N if b == N else wt + rng.choice([0, 1, 64])
                    ev.update(op="stops", stopT=a, stopW=b, stopI=c)
                    solver.stop_sim_time = np.inf if a == N else a * TICK
                    solver.stop_wall_time = np.inf if b == N else b * TICK
                    solver.stop_iteration = np.inf if c == N else c
                elif r < 0.8:
                    dw = rng.choice([1, 10, 100])
                    clock[0] += dw * TICK
                    ev.update(op="clock", w=dw)
                elif r < 0.84:
                    t = rng.choice([0, 8, 100])
                    solver.sim_time = t * TICK
                    ev.update(op="settime", t=t)
                elif r < 0.9:
                    dt = rng.choice([0, 3])
                    ev.update(op="handlers", dt=dt)
                    solver.evaluate_handlers([h] if rng.random() < .5 else None, dt=dt * TICK)
                else:
                    dts = [rng.choice([1, 2, 2, 16]) for _ in range(12)]
                    ev.update(op="evolve", dts=dts, w=2)
                    i = [0]

                    class Stop(Exception):
                        pass

                    def ts():
                        if i[0] >= len(dts):
                            raise Stop
                        i[0] += 1
                        return dts[i[0] - 1] * TICK
                    # the wall clock advances between steps
                    orig_step = solver.step

                    def step(dt):
                        orig_step(dt)
                        clock[0] += 2 * TICK
                    solver.step = step
                    try:
                        solver.evolve(ts, log_cadence=rng.choice([1, 100]))
                    except Stop:
                        pass
                    except ValueError:
                        ev["refused"] = True
                    finally:
                        solver.step = orig_step
                ev["calls"] = list(calls)
                ev["obs"] = obs()
                evs.append(ev)
            if solver.iteration > 0:
                solver.log_stats()
            traces.append({"cfg": {"it0": it0, "t0": t0, "u0": u0, "scheme": scheme.__name__}, "ev": evs})
    finally:
        for k, v in real.items():
            setattr(time, k, v)
    return traces


def run(ck):
    ck.design("SolverLoopMC")
    ck.design("SolverLoopMC", cfg="SolverLoopLive.cfg")
    with ck.driving("running the time loop"):
        traces = drive(ck.seed, ck.pick(70, 600), ck.pick(25, 60))

    def corrupt(ts):
        ts[0]["ev"][-1]["obs"]["t"] += 1
        return ts
    ck.validate("SolverLoopTrace", traces, negative=corrupt)
