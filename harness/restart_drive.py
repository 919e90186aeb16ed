"""Runs of initial value problems that write, step and load files in random order, across solvers, meshes and resolutions (C08)."""
import os, random, shutil
from ded import np, d3
from output_drive import World, polys, vector, FIX
NAMES = ["f", "g", "c0", "V"]


class Run:
    """A solver of a fixed smooth nonautonomous problem on one world."""
    def __init__(self, W, withV, scheme):
        self.W, dist = W, W.dist
        self.f, self.g = dist.Field(name="f", bases=W.bases), dist.Field(name="g", bases=W.bases)
        self.c0 = dist.Field(name="c0")
        self.vars = [self.f, self.g, self.c0]
        if withV:
            self.V = dist.Field(name="V", bases=W.bases, tensorsig=(W.cs,))
            self.vars.append(self.V)
        P = d3.IVP(self.vars)
        t, c, f, g = P.time, self.c0, self.f, self.g
        P.add_equation((d3.TimeDerivative(f) + f, t*g + c*g))
        P.add_equation((d3.TimeDerivative(g) - f, -c*f))
        P.add_equation((d3.TimeDerivative(c), t - c))
        if withV:
            P.add_equation((d3.TimeDerivative(self.V), -t*self.V + c*self.V))
        self.solver = P.build_solver(scheme)
        self.held = self.solver.evaluator.add_dictionary_handler(iter=1)  # as flow properties and timestep control do
        self.held.add_task(1*c, name="c", layout="g")
        self.held_t = self.solver.evaluator.add_dictionary_handler(sim_dt=.25)  # due on every step from time zero on
        self.held_t.add_task(1*c, name="c", layout="g")

    def fill(self, rng):
        W = self.W
        W.fill(self.f, [polys(rng, W.axes)])
        W.fill(self.g, [polys(rng, W.axes)])
        self.c0["g"] = rng.choice([-1, 1, .5])
        if len(self.vars) > 3:
            W.fill(self.V, vector(rng, W.axes))

    def see(self, probe, fields=None):
        out = []
        for v in fields or self.vars:
            x = v.copy()
            x.change_layout("c")
            s = []
            for p, ax, b in zip(probe, self.W.axes, x.domain.full_bases):
                q = p / ax["n"]
                s.append(1 if b is None else np.nextafter(q, 0) if np.ceil(q * ax["n"]) > p else q)
            x.change_scales(s)
            a = np.round(np.asarray(x.allgather_data("g")).ravel() * FIX)
            out.append([int(y) if np.isfinite(y) and abs(y) < 2e9 else -2**30 for z in a.astype(complex) for y in ((z.real, z.imag) if W_complex(self.W) else (z.real,))])
        return out


def W_complex(W):
    return W.dtype is np.complex128


def ms(x):
    return int(round(1000 * float(np.real(x))))


def clock(s):
    return [int(s.iteration), ms(s.sim_time), int(s.initial_iteration), ms(s.initial_sim_time)]


def trace(rng, geos, meshes, comm, path):
    geo = rng.choice(geos)
    dtype = rng.choice([np.float64, np.float64, np.complex128])
    ok = [m for m in meshes if len(m) <= {"box1": 0, "box2": 1, "box3": 2, "ball": 2, "shell": 2}.get(geo, 1)] or ([[]] if comm.size == 1 else [])
    if not ok:
        return None
    key = rng.random()
    withV = rng.random() < .7
    scheme = rng.choice(["RK111", "RK222", "RK443", "RKSMR"])
    grow = [0, rng.choice([0, 0, 1])]
    rng.shuffle(grow)
    runs = []
    for k in grow:
        W = World(random.Random(key), geo, dtype, rng.choice(ok), k)
        runs.append(Run(W, withV, scheme))
    probe = [max(a["n"] for a in p) for p in zip(*(r.W.axes for r in runs))]
    ev, handlers = [], []
    N = len(runs[0].vars)
    for s, r in enumerate(runs):
        t0 = rng.choice([0, 0, .5, -1])
        r.solver.sim_time = r.solver.initial_sim_time = t0
        r.fill(rng)
        r.ok = True
        ev.append({"op": "start", "s": s + 1, "t": ms(t0), "n": N, "size": grow[s]})
        ev.append({"op": "see", "s": s + 1, "vals": r.see(probe)})
    for h in range(2):
        s = rng.randrange(2) if h else 0
        r = runs[s]
        mode, mw = rng.choice(["gather", "virtual"]), rng.choice([None, 2, 3])
        H = r.solver.evaluator.add_file_handler(os.path.join(path, "h%d" % h), parallel=mode, max_writes=mw)
        has = []
        for v in r.vars:
            lay = rng.choice(["g", "g", "c"])
            if rng.random() < .1:
                has.append("no")
                continue
            if rng.random() < .2 and not has:
                H.add_tasks(r.vars, layout=lay, scales=rng.choice([None, 2]))
                has = [lay] * N
                break
            H.add_task(v, layout=lay, name=v.name, scales=rng.choice([None, 1, 1.5, 2]) if lay == "g" else None)
            has.append(lay)
        handlers.append((s, H))
        ev.append({"op": "handler", "h": h + 1, "s": s + 1, "max": mw or 10**6, "has": has})
    for _ in range(rng.randint(8, 14)):
        what = rng.choice(["step", "step", "write", "write", "load", "load", "set", "touch"])
        live = [i for i, r in enumerate(runs) if r.ok]
        if what in ("step", "set", "touch") and not live:
            what = "load"
        if what == "step":
            s = rng.choice(live)
            dt = rng.choice([.5, .25])
            r = runs[s]
            r.solver.step(dt)
            held = [r.see(probe, [h["c"]])[0] if "c" in h.fields else [] for h in (r.held, r.held_t)]
            ev.append({"op": "step", "s": s + 1, "dt": ms(dt), "clock": clock(r.solver), "held": held[0], "heldt": held[1]})
        elif what == "set":
            s = rng.choice(live)
            runs[s].fill(rng)
            ev.append({"op": "set", "s": s + 1})
        elif what == "touch":
            r = runs[rng.choice(live)]
            v = rng.choice(r.vars)
            v[rng.choice("gc")]
            if rng.random() < .5:
                v.change_scales(rng.choice([1, 2, 1.5]))
        elif what == "write":
            h = rng.randrange(len(handlers))
            s, H = handlers[h]
            if runs[s].ok:
                dt = rng.choice([.5, .25])
                runs[s].solver.evaluate_handlers([H], dt=dt)
                ev.append({"op": "write", "h": h + 1, "dt": ms(dt), "number": int(H.total_write_num)})
                comm.Barrier()
        else:
            h = rng.randrange(len(handlers))
            _, H = handlers[h]
            if not H.total_write_num:
                continue
            # loading an unwritten part of a file is not asked for
            mw = H.max_writes or 10**6
            sets = (H.total_write_num - 1) // mw + 1
            k = rng.randint(1, sets)
            inside = min(mw, H.total_write_num - (k - 1) * mw)
            idx = rng.randrange(-inside, inside)
            s = rng.randrange(2)
            r = runs[s]
            allow = rng.random() < .5
            e = {"op": "load", "s": s + 1, "h": h + 1, "set": k, "idx": idx, "allow": allow}
            try:
                w, dt = r.solver.load_state(os.path.join(path, "h%d" % h, "h%d_s%d.h5" % (h, k)), **({"index": idx} if idx != -1 or rng.random() < .5 else {}), **({"allow_missing": True} if allow else {}))
                e["got"] = [int(w), ms(dt)]
                e["clock"] = clock(r.solver)
                r.ok = True
            except (OSError, ValueError):
                e["got"], e["clock"] = [], []
                r.ok = False
            ev.append(e)
        for s, r in enumerate(runs):
            if r.ok and what != "set" and (what in ("load", "step") or rng.random() < .3):
                ev.append({"op": "see", "s": s + 1, "vals": r.see(probe)})
            elif r.ok and what == "set":
                ev.append({"op": "see", "s": s + 1, "vals": r.see(probe)})
    return {"cfg": {"geo": geo, "dtype": dtype.__name__, "P": comm.size, "scheme": scheme, "grow": grow}, "ev": ev}


def drive(seed, n, meshes, geos, path):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rng = random.Random("restart/%s/%s" % (seed, comm.size))
    out = []
    for t in range(n):
        d = os.path.join(path, "r%d_%d" % (comm.size, t))
        if comm.rank == 0:
            os.makedirs(d, exist_ok=True)
        comm.Barrier()
        tr = trace(rng, geos, meshes, comm, d)
        comm.Barrier()
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)
            if tr:
                out.append(tr)
    return out
