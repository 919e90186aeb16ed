"""C05: analysis handlers fire exactly on their schedule (spec/Schedule.tla)."""
LEVEL = "model_checking"
TICK = 1 / 16   # dyadic: all comparisons in the implementation are exact in binary floating point


def drive(ck, d3, ev_mod, ntraces, nev):
    import numpy as np
    rng = ck.rng
    coord = d3.Coordinate('x')
    dist = d3.Distributor(coord, dtype=np.float64)
    u = dist.Field(name='u')
    traces = []
    for n in range(ntraces):
        E = ev_mod.Evaluator(dist, {'u': u})
        nh = rng.randint(1, 4)
        hs, fired, cust, args = [], [], [], []
        point = {}

        class Rec(ev_mod.DictionaryHandler):
            def process(self, **kw):
                fired[self.k] += 1
                super().process(**kw)

        for k in range(nh):
            spec = {"wall": rng.choice([0, 0, 16, 24, 40]), "sim": rng.choice([0, 0, 8, 12, 20, 33]),
                    "iter": rng.choice([0, 0, 1, 2, 3, 7]), "cust": rng.random() < 0.3,
                    "group": rng.choice(["a", "b", "-"])}
            bvp = n % 5 == 4
            if bvp:
                spec["wall"] = spec["sim"] = 0
            hs.append(spec); fired.append(0); cust.append(False); args.append(True)
            kw = {}
            if spec["wall"]: kw["wall_dt"] = spec["wall"] * TICK
            if spec["sim"]: kw["sim_dt"] = spec["sim"] * TICK
            if spec["iter"]: kw["iter"] = spec["iter"]
            if spec["group"] != "-": kw["group"] = spec["group"]
            if spec["cust"]:
                def crit(k=k, **kw):
                    args[k] = args[k] and (kw == point)
                    return cust[k]
                kw["custom_schedule"] = crit
            h = Rec(dist, {'u': u}, **kw)
            h.k = k
            h.add_task(u * (k + 1), name='t')
            E.add_handler(h)
        it = rng.choice([0, 0, 0, 5, 17])
        t = rng.choice([0, 0, 0, 7, 50])
        wall = rng.choice([0, 0, 3])
        evs = []
        steps = [rng.randint(1, 24) for _ in range(3)]
        for e in range(nev):
            fired[:] = [0] * nh
            args[:] = [True] * nh
            cust[:] = [rng.random() < 0.3 for _ in range(nh)]
            dt = rng.choice(steps)
            point.clear()
            if bvp:
                point.update(iteration=it)
            else:
                point.update(iteration=it, sim_time=t * TICK, wall_time=wall * TICK, timestep=dt * TICK)
            r = rng.random()
            u['g'] = e
            ev = {"iter": it, "t": t, "dt": dt, "wall": wall, "cust": list(cust), "group": "-", "sel": [False] * nh}
            if r < 0.8:
                ev["op"] = "scheduled"
                E.evaluate_scheduled(**point)
            elif r < 0.9:
                ev["op"], ev["group"] = "group", rng.choice(["a", "b"])
                E.evaluate_group(ev["group"], **point)
            else:
                ev["op"], ev["sel"] = "forced", [rng.random() < 0.5 for _ in range(nh)]
                E.evaluate_handlers([h for h, s in zip(E.handlers, ev["sel"]) if s], **point)
            ev["fired"], ev["args"] = list(fired), list(args)
            # a processed handler holds the value at this evaluation
            for h in E.handlers:
                if fired[h.k] and h['t']['g'].ravel()[0] != e * (h.k + 1):
                    ck.violation("handler output is stale", {"event": ev})
            evs.append(ev)
            if r < 0.8 or rng.random() < 0.3:
                it += rng.choice([1, 1, 1, 1, 2, 5])
                t += dt
                wall += rng.choice([0, 1, 1, 5, 20, 90])
        traces.append({"cfg": {"handlers": hs}, "ev": evs})
    return traces


def solver_traces(ck, d3, np, n, nev):
    """The same through a solver's time loop: the evaluation points are the steps themselves."""
    rng = ck.rng
    traces = []
    for k in range(n):
        coord = d3.Coordinate('x')
        dist = d3.Distributor(coord, dtype=np.float64)
        u = dist.Field(name='u')
        problem = d3.IVP([u], namespace={'u': u})
        problem.add_equation("dt(u) = 1")
        solver = problem.build_solver(rng.choice([d3.SBDF1, d3.RK222, d3.CNAB2]))
        hs, fired = [], []
        for j in range(rng.randint(1, 3)):
            spec = {"wall": 0, "sim": rng.choice([0, 8, 12, 33]), "iter": rng.choice([0, 1, 3, 4]), "cust": False, "group": "-"}
            kw = {}
            if spec["sim"]: kw["sim_dt"] = spec["sim"] * TICK
            if spec["iter"]: kw["iter"] = spec["iter"]
            h = solver.evaluator.add_dictionary_handler(**kw)
            h.add_task(u, name='u')
            hs.append(spec); fired.append(0)
            def proc(j=j, orig=h.process, **kw):
                fired[j] += 1
                orig(**kw)
            h.process = proc
        evs, t = [], 0
        steps = [rng.randint(1, 20) for _ in range(2)]
        for i in range(nev):
            fired[:] = [0] * len(hs)
            dt = rng.choice(steps)
            solver.step(dt * TICK)
            evs.append({"op": "scheduled", "iter": i, "t": t, "dt": dt, "wall": 0, "cust": [False] * len(hs), "group": "-",
                        "sel": [False] * len(hs), "fired": list(fired), "args": [True] * len(hs)})
            t += dt
        traces.append({"cfg": {"handlers": hs}, "ev": evs})
    return traces


def run(ck):
    ck.design("ScheduleMC", timeout=300)
    with ck.driving("evaluating handlers"):
        from ded import np, d3
        import dedalus.core.evaluator as ev_mod
        traces = drive(ck, d3, ev_mod, ck.pick(60, 400), ck.pick(40, 120))
        traces += solver_traces(ck, d3, np, ck.pick(6, 30), ck.pick(30, 80))

    def corrupt(ts):
        e = ts[0]["ev"][-1]
        e["fired"][0] = 1 - e["fired"][0]
        return ts
    ck.validate("ScheduleTrace", traces, negative=corrupt)
