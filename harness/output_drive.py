"""File outputs of random tasks over random meshes, read back and described event by event (C07)."""
import os, random
from ded import np, d3
import h5py
FIX = 10000


def geometry(rng, geo, dtype, grow=0):
    """-> coordinate system(s), distributor builder args, bases, kinds of axes, names, sizes."""
    dl = rng.choice([1, 1.5])
    if grow:
        dl = 2.5 - dl
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    if geo in ("box1", "box2", "box3"):
        D = int(geo[3])
        names = "xyz"[:D]
        cs = d3.CartesianCoordinates(*names)
        bases, axes = [], []
        for c in cs.coords:
            lo, hi = rng.choice([(0, 1), (-1, 1), (0, 2)])
            if rng.random() < .5:
                n = rng.choice([8, 10]) + 2*grow
                bases.append(F(c, n, bounds=(lo, hi), dealias=dl)); axes.append({"kind": "F", "k": 2*np.pi/(hi - lo), "n": n, "lo": lo, "hi": hi})
            else:
                n = rng.choice([5, 6]) + 2*grow
                bases.append(d3.Jacobi(c, n, bounds=(lo, hi), a=rng.choice([-.5, 0]), b=rng.choice([-.5, 0]), dealias=dl)); axes.append({"kind": "J", "n": n, "lo": lo, "hi": hi})
        return cs, list(names), bases, axes
    if geo in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        n = (8 + 4*grow, 5 + 2*grow)
        b = d3.DiskBasis(cs, n, dtype, radius=1, dealias=dl) if geo == "disk" else d3.AnnulusBasis(cs, n, dtype, radii=(.5, 1.5), dealias=dl)
        return cs, ["phi", "r"], [b], [{"kind": "A", "n": n[0]}, {"kind": "R", "n": n[1]}]
    if geo == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        n = (8 + 4*grow, 6 + 2*grow)
        b = d3.SphereBasis(cs, n, dtype, radius=1, dealias=dl)
        return cs, ["phi", "theta"], [b], [{"kind": "A", "n": n[0]}, {"kind": "C", "n": n[1]}]
    cs = d3.SphericalCoordinates("phi", "theta", "r")
    n = (8 + 4*grow, 6 + 2*grow, (4 if geo == "ball" else 5) + grow)
    b = d3.BallBasis(cs, n, dtype, radius=1, dealias=dl) if geo == "ball" else d3.ShellBasis(cs, n, dtype, radii=(.5, 1.5), dealias=dl)
    return cs, ["phi", "theta", "r"], [b], [{"kind": k, "n": m} for k, m in zip("ACR", n)]


def embed(ax, x):
    """Variables of one coordinate value."""
    k = ax["kind"]
    if k == "F":
        return [np.cos(ax["k"]*x), np.sin(ax["k"]*x)]
    return [np.cos(x), np.sin(x)] if k in "AC" else [x]


def polys(rng, axes, deg=2):
    """A random smooth polynomial in the variables of the axes: list of (c, exponents)."""
    out = []
    kinds = [a["kind"] for a in axes]
    for _ in range(rng.randint(1, 3)):
        c = rng.choice([-2, -1, 1, 2])
        if kinds[0] in "FJ":
            m, left = [], deg
            for k in kinds:
                e = rng.randint(0, left)
                left -= e
                if k == "F":
                    a = rng.randint(0, e)
                    m += [a, e - a]
                else:
                    m += [e]
        else:
            X = [0, 0, 0]
            for _ in range(rng.randint(0, deg)):
                X[rng.randrange(2 if kinds == ["A", "R"] else 3)] += 1
            m = cart(X, kinds)
        out.append([c, m])
    return out


def cart(X, kinds):
    a, b, c = X
    if kinds == ["A", "R"]:
        return [a, b, a + b]
    if kinds == ["A", "C"]:
        return [a, b, c, a + b]
    return [a, b, c, a + b, a + b + c]


def times(p, m):
    return [[c, [i + j for i, j in zip(e, m)]] for c, e in p]


def scale(p, s):
    return [[s*c, e] for c, e in p]


def vector(rng, axes):
    """Components of a smooth vector field, as polynomials."""
    kinds = [a["kind"] for a in axes]
    if kinds[0] in "FJ":
        return [polys(rng, axes) for _ in axes]
    V = [polys(rng, axes, 1) for _ in range(2 if kinds == ["A", "R"] else 3)]
    if kinds == ["A", "R"]:
        c, s = [1, 0, 0], [0, 1, 0]
        return [times(scale(V[0], -1), s) + times(V[1], c), times(V[0], c) + times(V[1], s)]
    z = [0] * (4 if kinds == ["A", "C"] else 5)
    u = lambda *i: [z[j] + i.count(j) for j in range(len(z))]  # c = 0, s = 1, C = 2, S = 3
    ph = times(scale(V[0], -1), u(1)) + times(V[1], u(0))
    th = times(V[0], u(2, 0)) + times(V[1], u(2, 1)) + times(scale(V[2], -1), u(3))
    r = times(V[0], u(3, 0)) + times(V[1], u(3, 1)) + times(V[2], u(2))
    return [ph, th, r] if len(axes) == 3 else [ph, th]


def evaluate(p, vs, shape):
    out = np.zeros(shape)
    for c, m in p:
        t = c * np.ones(shape)
        for v, e in zip(vs, m):
            if e:
                t = t * v**e
        out = out + t
    return out


class World:
    def __init__(self, rng, geo, dtype, mesh, grow=0):
        self.rng, self.geo, self.dtype = rng, geo, dtype
        self.cs, self.names, self.bases, self.axes = geometry(rng, geo, dtype, grow)
        self.dist = d3.Distributor(self.cs, dtype=dtype, mesh=mesh)
        self.D = len(self.names)

    def variables(self, grids):
        return [v for ax, g in zip(self.axes, grids) for v in embed(ax, g)]

    def fill(self, f, comps):
        """Set a field to polynomial components at scale 1."""
        f.change_scales(1)
        g = self.dist.local_grids(*self.bases)
        shape = f["g"].shape[len(f.tensorsig):]
        vals = [evaluate(p, self.variables(g), np.broadcast_shapes(*[x.shape for x in g])) for p in comps]
        f["g"] = np.array(vals).reshape(f["g"].shape) if f.tensorsig else vals[0]

    def orders(self, comps):
        """Mode numbers contained along each axis ([] where not told)."""
        out, o = [], 0
        for ax in self.axes:
            nv = 2 if ax["kind"] in "FAC" else 1
            ex = [sum(m[o:o + nv]) for p in comps for c, m in p]
            d = max(ex, default=0)
            if ax["kind"] == "F" and self.dtype is np.complex128:
                out.append(sorted({s*k for e in ex for k in range(e % 2, e + 1, 2) for s in (1, -1)}))
            elif ax["kind"] == "F" or ax["kind"] == "A" and self.dtype is np.float64:
                out.append(sorted({k for e in ex for k in range(e % 2, e + 1, 2)}))
            elif ax["kind"] == "J":
                out.append(list(range(d + 1)))
            else:
                out.append([])
            o += nv
        return out


def pairs(a):
    a = np.asarray(a).ravel()
    a = np.round(a * FIX)
    return [[int(z.real), int(z.imag)] if np.isfinite(z) and abs(z) < 2e9 else [-2**30, 0] for z in a.astype(complex)]


def trace(rng, geos, meshes, comm, path):
    geo = rng.choice(geos)
    dtype = rng.choice([np.float64, np.float64, np.complex128])
    ok = [m for m in meshes if len(m) <= {"box1": 1, "box2": 2, "box3": 3, "ball": 3, "shell": 3}.get(geo, 2) - 1] or ([[]] if comm.size == 1 else [])
    if not ok:
        return None
    W = World(rng, geo, dtype, rng.choice(ok))
    dist = W.dist
    f, g = dist.Field(name="f", bases=W.bases), dist.Field(name="g", bases=W.bases)
    V = dist.Field(name="V", bases=W.bases, tensorsig=(W.cs,)) if geo != "box1" or rng.random() < .5 else None
    c0 = dist.Field(name="c0")
    ns = {"f": f, "g": g, "V": V, "c0": c0}
    problem = d3.IVP([f, g, c0] + ([V] if V else []), namespace=ns)
    for x in problem.variables:
        problem.add_equation((d3.TimeDerivative(x), 0))
    t0 = rng.choice([0, 1.5, -2])
    solver = problem.build_solver(rng.choice(["RK111", "RK222"]))
    solver.sim_time = t0
    if geo[:3] == "box" and any(a["kind"] == "J" for a in W.axes) or geo in ("annulus", "shell", "ball", "disk"):
        ia = [i for i, a in enumerate(W.axes) if a["kind"] in "JR"][-1]
        ax = W.axes[ia]
        where = rng.choice([ax["lo"], ax["hi"], (ax["lo"] + ax["hi"])/2]) if geo[:3] == "box" else {"disk": 1, "ball": 1, "annulus": .5, "shell": 1.5}[geo]
    else:
        ia = None
    handlers = []
    for h in range(rng.randint(1, 2)):
        mode = rng.choice(["gather", "virtual"])
        name = rng.choice(["snap", "out.1", "a b"]) + str(h)
        H = solver.evaluator.add_file_handler(os.path.join(path, name), parallel=mode, max_writes=rng.choice([None, 2, 3]), iter=rng.choice([1, 2, None]))
        tasks = []
        for k in range(rng.randint(1, 4)):
            what = rng.choice(["f", "f", "V", "V", "f*g", "2*f-g", "at", "c0"] if W.D > 1 or V else ["f", "f*g", "2*f-g", "c0"])
            if what == "V" and V is None or what == "at" and ia is None:
                what = "f"
            if what == "f*g" and dtype is np.float64 and geo not in ("box1", "box2", "box3", "annulus", "disk"):
                what = "2*f-g"
            lay = rng.choice(["g", "g", "c", rng.randrange(W.D + 1)])
            sc = rng.choice([None, 1, 1.5, 2] + ([tuple(rng.choice([1, 1.5, .5, 2]) for _ in range(W.D))] if geo[:3] == "box" else []))
            if what in ("f*g",) and sc not in (None, 1):
                sc = 2
            if lay != "g" and lay != "c":
                lay = dist.layouts[lay]
            op = {"f": lambda: f, "V": lambda: rng.choice([V, 1*V]), "f*g": lambda: f*g, "2*f-g": lambda: 2*f - g,
                  "at": lambda: f(**{W.names[ia]: where}), "c0": lambda: c0}[what]()
            tn = rng.choice([None, "t%d" % k, "my task %d" % k])
            if tn is None and str(op) in [t["name"] for t in tasks] or tn is None and what == "at":
                tn = "t%d" % k
            H.add_task(op, layout=lay, name=tn, scales=sc)
            L = dist.get_layout_object(lay)
            tasks.append({"what": what, "layout": L, "scales": sc, "name": tn or str(op)})
        handlers.append((H, tasks, mode, name))
    ev, records = [], []
    # run
    state = {}
    writes = {}
    for step in range(rng.randint(2, 5)):
        if step == 0 or rng.random() < .6:
            state = {"f": polys(rng, W.axes), "g": polys(rng, W.axes, 1), "V": vector(rng, W.axes), "c0": rng.choice([-3, 1, 2])}
            W.fill(f, [state["f"]]); W.fill(g, [state["g"]])
            c0["g"] = state["c0"]
            if V is not None:
                W.fill(V, state["V"])
        if rng.random() < .3:
            rng.choice([f, g])[rng.choice(["g", "c"])]
        dt = rng.choice([.5, .25, 2])
        before = {id(H): H.total_write_num for H, *_ in handlers}
        it, t = solver.iteration, solver.sim_time
        if rng.random() < .6:
            solver.step(dt)
        else:
            solver.evaluate_handlers([H for H, *_ in handlers], dt=dt)
        snapshot = None
        for H, tasks, mode, name in handlers:
            if H.total_write_num > before[id(H)]:
                # reference: fresh fields holding the same functions, in the task's own layout and scales
                for T in tasks:
                    comps = {"f": [state["f"]], "V": state["V"], "g": [state["g"]], "2*f-g": [scale(state["f"], 2) + scale(state["g"], -1)]}.get(T["what"])
                    fn = [[[p]] for p in comps] if comps else None
                    if T["what"] == "f*g":
                        fn = [[[state["f"], state["g"]]]]
                    if T["what"] == "2*f-g":
                        fn = [[[scale(state["f"], 2)], [scale(state["g"], -1)]]]
                    zero = [0] * sum(2 if a["kind"] in "FAC" else 1 for a in W.axes)
                    if T["what"] == "c0":
                        fn = [[[[[state["c0"], zero]]]]]
                    if T["what"] == "at":
                        fn = [[[state["f"]]]]
                        ref = f(**{W.names[ia]: where}).evaluate()
                        ref = ref.copy()
                    elif T["what"] == "c0":
                        ref = dist.Field()
                        ref["g"] = state["c0"]
                    elif T["what"] == "f*g":
                        r1, r2 = dist.Field(bases=W.bases), dist.Field(bases=W.bases)
                        W.fill(r1, [state["f"]]); W.fill(r2, [state["g"]])
                        ref = (r1 * r2).evaluate()
                    else:
                        ref = dist.Field(bases=W.bases, tensorsig=(W.cs,) if T["what"] == "V" else ())
                        W.fill(ref, comps)
                    ref.change_layout("c")
                    ref.change_scales(T["scales"] if T["scales"] is not None else 1)
                    ref.change_layout(T["layout"])
                    els = T["layout"].local_elements(ref.domain, ref.scales)
                    part = comm.gather({"el": [[int(x) for x in e] for e in els], "data": pairs(ref.data)}, root=0)
                    flat = [p for comp in (fn or []) for pr in comp for p in pr]
                    records.append(dict(H=H, T=T, n=H.total_write_num, set=H.set_num, idx=H.file_write_num - 1, part=part, fn=fn, dom=ref.domain, rank=len(ref.tensorsig),
                                        orders=W.orders(comps) if comps and not T["layout"].grid_space.any() else None, zero=zero))
                writes.setdefault(id(H), []).append([it, int(round(t * 1000)), H.total_write_num, int(round(dt * 1000))])
    comm.Barrier()
    if comm.rank:
        return {}
    # read back on one process
    seen = set()
    for R in records:
        H, T = R["H"], R["T"]
        L = T["layout"]
        with h5py.File(os.path.join(str(H.base_path), "%s_s%d.h5" % (H.base_path.stem, R["set"])), "r") as file:
            ds = file["tasks"][T["name"]]
            tensor = list(ds.shape[1:1 + R["rank"]])
            spatial = list(ds.shape[1 + R["rank"]:])
            coords, modes = [], []
            for a in range(W.D):
                dim = ds.dims[1 + R["rank"] + a]
                vals = np.array(dim[0])
                if R["dom"].constant[a]:
                    x = where if T["what"] == "at" else 0.
                    coords.append([[int(round(FIX * float(y))) for y in embed(W.axes[a], x)]])
                elif L.grid_space[a] and vals.ndim == 1:
                    coords.append([[int(round(FIX * float(y))) for y in embed(W.axes[a], x)] for x in vals])
                else:
                    coords.append([])
                modes.append([int(v) for v in vals.ravel()] if vals.ndim == W.D and not L.grid_space.any() and vals.shape == tuple(spatial) else [])
            key = (id(H), R["set"], T["name"])
            if key not in seen:
                seen.add(key)
                sc = dist.remedy_scales(T["scales"])
                names = [d.label for d in ds.dims]
                ev.append({"op": "dataset", "task": T["what"], "records": sum(1 for r in records if r["H"] is H and r["T"] is T and r["set"] == R["set"]),
                           "tensor": [c.dim for c in ((W.cs,) if R["rank"] else ())], "spatial": spatial, "coords": coords,
                           "axes": [{"name": W.names[a], "kname": "k" + W.names[a], "n": W.axes[a]["n"], "constant": bool(R["dom"].constant[a])} for a in range(W.D)],
                           "how": [{"grid": bool(L.grid_space[a]), "scale": [int(round(2 * sc[a])), 2]} for a in range(W.D)],
                           "file": {"shape": list(ds.shape), "labels": names, "grid": [bool(x) for x in ds.attrs["grid_space"]], "constant": [bool(x) for x in ds.attrs["constant"]],
                                    "scales": [int(round(100 * x)) for x in ds.attrs["scales"]]}})
                if (id(H), R["set"]) not in seen:
                    seen.add((id(H), R["set"]))
                    s = file["scales"]
                    got = [[int(i), int(round(1000 * t)), int(w), int(round(1000 * d))] for i, t, w, d in zip(s["iteration"][:], s["sim_time"][:], s["write_number"][:], s["timestep"][:])]
                    ns_ = [r["n"] for r in records if r["H"] is H and r["set"] == R["set"]]
                    ev.append({"op": "times", "file": got, "asked": [w for w in writes[id(H)] if w[2] in ns_]})
            data = np.array(ds[R["idx"]]) if R["idx"] < ds.shape[0] else np.zeros(0)
            grid = bool(L.grid_space.all())
            fn = R["fn"]
            if not grid or min(dist.remedy_scales(T["scales"])) < 1:
                fn = None  # a coarser grid only carries a truncation
            ev.append({"op": "record", "task": T["what"], "tensor": tensor, "spatial": spatial, "data": pairs(data), "parts": R["part"],
                       "fn": [[[[{"c": c, "m": m} for c, m in p] for p in pr] for pr in comp] for comp in fn] if fn else [],
                       "coords": coords, "modes": modes if R["orders"] and all(modes) else [], "orders": R["orders"] or []})
    return {"cfg": {"geo": geo, "dtype": dtype.__name__, "P": comm.size, "modes": [m for _, _, m, _ in handlers]}, "ev": ev}


def drive(seed, n, meshes, geos, path):
    import shutil
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rng = random.Random("out/%s/%s" % (seed, comm.size))
    out = []
    for t in range(n):
        d = os.path.join(path, "o%d_%d" % (comm.size, t))
        tr = trace(rng, geos, meshes, comm, d)
        comm.Barrier()
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)
            if tr:
                out.append(tr)
    return out
