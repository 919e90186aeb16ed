"""The same problems built and solved on many process meshes; what each run ends with (C26)."""
import os, random, shutil
from ded import np, d3
import h5py
SC = 10**6


def ints(a):
    return [int(v) if np.isfinite(v) and abs(v) < 2e9 else -2**30 for z in np.round(np.asarray(a, dtype=complex).ravel() * SC) for v in (z.real, z.imag)]


def summary(a):
    """A few entries and weighted sums of an array."""
    a = np.asarray(a)
    f = a.ravel()
    w = np.cos(1 + 1.7 * np.arange(f.size))
    pick = f[::max(1, f.size // 12)][:16]
    return [list(a.shape), ints(np.concatenate([[f.mean() if f.size else 0, (w * f).sum() / max(1, f.size)], pick]))]


def world(rng, geo, dtype):
    """A function of a mesh that builds the coordinates, distributor and bases."""
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    dl = rng.choice([1, 1.5])
    ns = [rng.choice([4, 6, 8]) for _ in range(3)]
    if geo in ("box2", "box3", "per2", "per3"):
        D = int(geo[3])
        nz = rng.choice([8, 10])
        per = geo[:3] == "per"

        def make(mesh):
            c = d3.CartesianCoordinates(*"xyz"[:D])
            dist = d3.Distributor(c, dtype=dtype, mesh=mesh)
            bases = [F(c.coords[i], ns[i], bounds=(0, [2, 3, 2.5][i]), dealias=dl) if per or i != D - 1 else d3.ChebyshevT(c.coords[i], nz, bounds=(0, 1), dealias=dl) for i in range(D)]
            return c, dist, bases, tuple(bases[:-1]), bases[-1], "xyz"[D - 1], [] if per else [0, 1]
        return make
    if geo in ("disk", "annulus"):
        n = (rng.choice([4, 8]) if dtype is np.complex128 else rng.choice([8, 8]), rng.choice([6, 8]))

        def make(mesh):
            c = d3.PolarCoordinates("phi", "r")
            dist = d3.Distributor(c, dtype=dtype, mesh=mesh)
            b = d3.DiskBasis(c, n, dtype, radius=1, dealias=dl) if geo == "disk" else d3.AnnulusBasis(c, n, dtype, radii=(.5, 1.5), dealias=dl)
            return c, dist, [b], b.edge if geo == "disk" else b.outer_edge, b, "r", [1] if geo == "disk" else [.5, 1.5]
        return make
    if geo == "sphere":
        n = (8, 6)

        def make(mesh):
            c = d3.S2Coordinates("phi", "theta")
            dist = d3.Distributor(c, dtype=dtype, mesh=mesh)
            return c, dist, [d3.SphereBasis(c, n, dtype, radius=1, dealias=dl)], None, None, None, []
        return make
    n = (8, 6, rng.choice([5, 6]))

    def make(mesh):
        c = d3.SphericalCoordinates("phi", "theta", "r")
        dist = d3.Distributor(c, dtype=dtype, mesh=mesh)
        b = d3.BallBasis(c, n, dtype, radius=1, dealias=dl) if geo == "ball" else d3.ShellBasis(c, n, dtype, radii=(.5, 1.5), dealias=dl)
        return c, dist, [b], b.surface if geo == "ball" else b.outer_surface, b, "r", [1] if geo == "ball" else [.5, 1.5]
    return make


class Taus:
    """Boundary conditions of one second-order unknown and the terms that make room for them."""
    def __init__(self, dist, c, edge, inner, axis, ends, name, tensorsig=()):
        self.fields = [dist.Field(name="t%d%s" % (k, name), bases=edge, tensorsig=tensorsig) for k in range(len(ends))]
        self.axis, self.ends = axis, ends
        if ends:
            # the ball and disk keep their own basis, where the degree follows the regularity
            lb = inner.derivative_basis(2) if len(ends) == 2 else inner
            self.lift = sum(d3.Lift(t, lb, -1 - k) for k, t in enumerate(self.fields))

    def add(self, x):
        return x + self.lift if self.ends else x

    def conditions(self, problem, u, values):
        for e, v in zip(self.ends, values):
            problem.add_equation((u(**{self.axis: e}), v))


def run(key, mesh, comm, path, info):
    """-> list of [name, summary], every rank"""
    rng = random.Random(key)
    geo = rng.choice(["box2", "box2", "box3", "box3", "per2", "per3", "disk", "annulus", "sphere", "ball", "shell"])
    dtype = rng.choice([np.float64, np.float64, np.complex128])
    kind = rng.choice(["IVP", "IVP", "IVP", "LBVP", "NLBVP", "EVP"])
    if kind == "NLBVP" and geo[:3] not in ("box", "per"):
        kind = "LBVP"  # linearisations on curvilinear bases have coefficients that depend on the angles: not supported
    make = world(rng, geo, dtype)
    c, dist, bases, edge, inner, axis, ends = make(mesh)
    vec = rng.random() < .5
    sig = (c,) if vec else ()
    u = dist.Field(name="u", bases=bases, tensorsig=sig)
    T = Taus(dist, c, edge, inner, axis, ends, "u", sig)
    rand = lambda f, s, a, cut: (f.fill_random("g", seed=s, distribution="standard_normal"), f.low_pass_filter(scales=cut), f["g"].__imul__(a))
    source = dist.Field(name="F", bases=bases, tensorsig=sig)
    rand(source, rng.randrange(10**6), 1, .5)
    ncc = None
    if rng.random() < .5 and axis is not None:
        ncc = dist.Field(name="n", bases=(inner.radial_basis if axis == "r" else inner,))
        x = dist.local_grids(*bases)[-1]
        ncc["g"] = 1 + .3*x**2 if ends else 1 + .2*np.cos(2*np.pi*x/inner.bounds[1])
        if not ends:
            ncc = None  # periodic axes are separable: no coefficients along them
    mass = rng.choice([0, 1, 2.5])
    res = []
    info.update({"geo": geo, "kind": kind, "vec": vec, "flow": False, "ncc": ncc is not None, "dtype": dtype.__name__})
    k = rng.choice([.5, .1])
    steps = rng.randint(3, 6)
    extra = rng.choice(["none", "cfl", "flow", "file"])
    scheme = rng.choice(["RK111", "RK222", "RK443", "SBDF2", "CNAB2", "SBDF3", "MCNAB2"])
    s0, s1 = rng.randrange(10**6), rng.randrange(10**6)
    variables = [u] + T.fields
    flow = rng.random() < .35 and vec and kind == "IVP" and geo in ("box2", "box3", "per2", "per3", "sphere", "ball")
    info.update({"flow": flow, "scheme": scheme, "extra": extra})
    if kind == "IVP":
        p = tp = None
        if flow:
            p, tp = dist.Field(name="p", bases=bases), dist.Field(name="tp")
            variables += [p, tp]
        P = d3.IVP(variables)
        lhs = d3.TimeDerivative(u) - k*d3.Laplacian(u)
        if ncc is not None and not flow:
            lhs = lhs + ncc*u
        div = None
        if flow and ends:
            # first-order form: the constraint sees one of the taus
            e = dist.VectorField(c)
            e["g"][-1] = 1
            lift = lambda t: d3.Lift(t, inner.derivative_basis(1), -1)
            grad = d3.Gradient(u) + e*lift(T.fields[0])
            lhs = d3.TimeDerivative(u) - k*d3.Divergence(grad) + lift(T.fields[1])
            div = d3.Trace(grad)
        if flow:
            lhs = lhs + d3.Gradient(p)
        rhs = (-(u @ d3.Gradient(u)) if vec else -u*u) + source
        P.add_equation((lhs if div is not None else T.add(lhs), rhs))
        T.conditions(P, u, [0, 0])
        if flow:
            P.add_equation(((d3.Divergence(u) if div is None else div) + tp, 0))
            P.add_equation(((d3.Average(p) if geo == "sphere" else d3.Integrate(p)), 0))
        rand(u, s0, .3, .5)
        if vec and geo in ("disk", "annulus", "sphere", "ball", "shell"):
            u["c"]
        solver = P.build_solver(scheme)
        if extra == "file":
            H = solver.evaluator.add_file_handler(path, iter=2, parallel=rng.choice(["gather", "virtual"]))
            H.add_task(u, layout="g", name="u", scales=1)
            H.add_task(d3.Integrate(u@u if vec else u*u), name="e") if geo != "sphere" else None
        if extra == "cfl" and vec:
            cfl = d3.CFL(solver, initial_dt=.05, cadence=rng.choice([1, 2]), safety=.3, max_dt=.1, min_dt=.001, threshold=.01)
            cfl.add_velocity(u)
        if extra == "flow":
            G = d3.GlobalFlowProperty(solver, cadence=1)
            G.add_property(u@u if vec else u*u, name="q")
        dts = []
        for i in range(steps):
            dt = cfl.compute_timestep() if extra == "cfl" and vec else [.05, .02][i // 2 % 2]
            dts.append(dt)
            solver.step(dt)
            if extra == "flow" and dtype is np.float64:
                dts += [G.max("q"), G.min("q"), G.grid_average("q")]
        res.append(["clock", summary([solver.iteration, solver.sim_time] + dts)])
        seen = [u] + ([p] if flow else [])
    elif kind == "LBVP":
        P = d3.LBVP(variables)
        lhs = d3.Laplacian(u) - (3 + mass)*u
        if ncc is not None:
            lhs = lhs + ncc*u
        P.add_equation((T.add(lhs), source))
        T.conditions(P, u, [0, rng.choice([0, 1]) if not vec else 0])
        solver = P.build_solver()
        solver.solve()
        if rng.random() < .5:
            rand(source, s1, 1, .5)
            solver.solve()
        seen = [u] + T.fields
    elif kind == "NLBVP":
        if vec:
            P = d3.NLBVP(variables)
            rhs = .1*(u @ d3.Gradient(u)) + source
        else:
            P = d3.NLBVP(variables)
            rhs = .2*u*u + source
        lhs = d3.Laplacian(u) - (3 + mass)*u
        P.add_equation((T.add(lhs), rhs))
        T.conditions(P, u, [0, 0])
        solver = P.build_solver()
        norms = []
        for i in range(3):
            solver.newton_iteration()
            norms.append(sum(x.allreduce_data_norm("c", 2) for x in solver.perturbations))
        res.append(["norms", summary(norms)])
        seen = [u] + T.fields
    else:
        s = dist.Field(name="s")
        P = d3.EVP(variables, eigenvalue=s)
        lhs = s*u + d3.Laplacian(u)
        if ncc is not None:
            lhs = lhs - ncc*u
        P.add_equation((T.add(lhs), 0))
        T.conditions(P, u, [0, 0])
        solver = P.build_solver()
        mine = {}
        solver.build_matrices(solver.subproblems, ["M", "L"])  # together: see the known finding
        for sp in solver.subproblems:
            solver.solve_dense(sp)
            ev = solver.eigenvalues
            ev = ev[np.isfinite(ev)]
            ev = ev[np.argsort(np.abs(ev))][:3]
            mine[tuple(-1 if g is None else int(g) for g in sp.group)] = [[float(abs(z)), float(z.real)] for z in ev]
        got = comm.allgather(mine)
        groups = sorted({g for m in got for g in m})
        al = {g: v for m in got for g, v in m.items()}
        res.append(["groups", [[len(groups)], [x for g in groups for x in g]]])
        for g in groups[:: max(1, len(groups)//8)]:
            res.append(["eigenvalues%s" % (g,), summary(np.array(al[g]) / 100)])
        seen = []
    gs = sorted({tuple(-1 if g is None else int(g) for g in q) for r in comm.allgather([tuple(sp.group) for sp in solver.subproblems]) for q in r})
    res.append(["subproblems", [[len(gs)], [x for g in gs for x in g]]])
    for f in seen:
        f.change_scales(1)
        res.append([f.name, summary(f.allgather_data("g"))])
    if kind == "IVP" and extra == "file":
        comm.Barrier()
        out = None
        if comm.rank == 0:
            out = []
            for q in sorted(os.listdir(path)):
                if q.endswith(".h5"):
                    with h5py.File(os.path.join(path, q), "r") as h:
                        for t in sorted(h["tasks"]):
                            out.append(["file " + t, summary(h["tasks"][t][()])])
                        out.append(["file times", summary(np.array([h["scales"][x][:] for x in ("sim_time", "timestep", "iteration", "write_number")]))])
        res += comm.bcast(out, root=0)
    return res


def evp_own(n):
    """Every process solves the subproblems it has, and builds the matrices it needs; some have none."""
    x = d3.CartesianCoordinates("x", "z")
    dist = d3.Distributor(x, dtype=np.float64)
    bases = d3.RealFourier(x["x"], n, bounds=(0, 1)), d3.ChebyshevT(x["z"], 8, bounds=(0, 1))
    u, s, c = dist.Field(name="u", bases=bases), dist.Field(name="s"), dist.Field(name="c", bases=bases[1])
    T = Taus(dist, x, bases[0], bases[1], "z", [0, 1], "u")
    c["g"] = 1 + dist.local_grid(bases[1])**2
    P = d3.EVP([u] + T.fields, eigenvalue=s)
    P.add_equation((T.add(s*u + d3.Laplacian(u) - c*u), 0))
    T.conditions(P, u, [0, 0])
    solver = P.build_solver()
    out = []
    for sp in solver.subproblems:
        solver.solve_dense(sp)
        out.append([int(sp.group[0]), summary(np.sort(np.abs(solver.eigenvalues))[:3] / 100)])
    return dist.comm.gather(out, root=0)


DIM = {"box2": 2, "box3": 3, "per2": 2, "per3": 3, "ball": 3, "shell": 3}


def drive(seed, ks, meshes, path):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    out = []
    for k in ks:
        key = "mesh/%s/%s" % (seed, k)
        geo = random.Random(key).choice(["box2", "box2", "box3", "box3", "per2", "per3", "disk", "annulus", "sphere", "ball", "shell"])
        ok = [m for m in meshes if len(m) <= DIM.get(geo, 2) - 1] or ([None] if comm.size == 1 else [])
        if not ok:
            continue
        mesh = random.Random(key + "/%d" % comm.size).choice(ok)
        d = os.path.join(path, "m%d_%s" % (comm.size, k))
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(path, exist_ok=True)
        comm.Barrier()
        if comm.rank == 0 and os.environ.get("MESH_DEBUG"):
            print("START", k, mesh, geo, flush=True)
        err, info = "", {}
        try:
            res = run(key, mesh, comm, d, info)
        except Exception as e:
            import traceback
            res, err = [], "%s: %s" % (type(e).__name__, str(e)[:200]) + traceback.format_exc()[-300:]
        errs = comm.allgather(err)
        agree = len({repr(x) for x in comm.allgather(res)}) == 1
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)
            out.append({"k": k, "P": comm.size, "mesh": list(mesh or []), "info": info, "res": [{"name": n, "dims": [y for z in d for y in (z if isinstance(z, list) else [z])], "x": x} for n, (d, x) in res],
                        "coupled": info.get("kind") == "NLBVP", "agree": agree, "err": "refused" if errs[0].startswith("ValueError: Problem is coupled along distributed") else max(errs)})
    return out
