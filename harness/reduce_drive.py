"""Global reductions reported by every process, for random data on any mesh (C14)."""
import itertools, random
from ded import np, d3
from dedalus.extras import flow_tools
from partition_drive import DIMS, domains
FIX = 1000


def gauss(np, a):
    a = np.asarray(a).ravel()
    return [[int(round(float(z.real))), int(round(float(z.imag)))] for z in a]


def integer(x):
    """A reported number that should be an integer: millionth-accurate, or an impossible value."""
    x = complex(x)
    r = round(x.real)
    return int(r) if abs(x - r) <= 1e-6 * max(1, abs(x)) and abs(r) < 2**31 else -2**30


def fixed(x, unit=1):
    x = complex(x) / unit
    return int(round(x.real * FIX)) if abs(x.imag) < 1e-6 * max(1, abs(x)) and abs(x) < 2e6 else -2**30


class Recorder:
    def __init__(self, comm):
        self.comm, self.ev = comm, []

    def add(self, op, got, parts=None, **kw):
        got = self.comm.gather(got, root=0)
        if parts is not None:
            parts = self.comm.gather(parts, root=0)
        if self.comm.rank == 0:
            e = {"op": op, "got": got, "parts": parts or [], "terms": [], "comps": [], "order": 0, "normalize": False, "tol": 0, "val": 0}
            e.update(kw)
            self.ev.append(e)


def data_trace(rng, geos, meshes, comm, priv):
    """Reductions of integer grid data."""
    while True:
        geo, cs, dtype, sets = domains(rng, d3, np, geos, comm.size)
        D = DIMS[geo]
        ok = [m for m in meshes if len(m) <= D - 1]
        if ok:
            break
    mesh = rng.choice(ok)
    dist = d3.Distributor(cs, dtype=dtype, mesh=mesh)
    cplx = dtype is np.complex128
    R = Recorder(comm)
    sysd = cs if not isinstance(cs, tuple) else cs[1]
    fs = []
    for bases in sets:
        if geo == "cylinder" and not bases:
            continue
        sig = (sysd,) if rng.random() < .3 and (not isinstance(cs, tuple) or any(b.dim > 1 for b in bases)) else ()
        f = dist.Field(bases=bases, tensorsig=sig)
        f.preset_scales(1)
        fs.append(f)
    t0 = rng.choice([0, 0, 2.5, -1.25, 7])
    t = dist.Field(name="t"); t["g"] = t0
    u = dist.Field(bases=sets[0])
    problem = d3.IVP([u], time=t)
    problem.add_equation((d3.TimeDerivative(u), 0))
    solver = problem.build_solver("RK111")
    R.add("time", integer(8 * solver.sim_time), val=int(8 * t0))
    flow = flow_tools.GlobalFlowProperty(solver, cadence=1)
    big = rng.choice([3, 40])
    shift = rng.choice([0, 0, 60, -60])
    for k, f in enumerate(fs):
        f.preset_layout("g")
        shape = [c.dim for c in f.tensorsig] + list(dist.grid_layout.global_shape(f.domain, 1))
        r = np.random.RandomState(rng.randrange(2**31))
        data = r.randint(-big, big + 1, size=shape).astype(dtype) + shift
        if cplx:
            data = data + 1j * r.randint(-big, big + 1, size=shape)
        if rng.random() < .5:
            f.set_global_data(data)
        else:
            el = dist.grid_layout.local_elements(f.domain, 1)
            nc = int(np.prod(shape[:len(f.tensorsig)], dtype=int))
            f["g"] = data.reshape([nc] + shape[len(f.tensorsig):])[np.ix_(range(nc), *el)].reshape(f["g"].shape)
    parts = [gauss(np, f["g"]) for f in fs]
    exprs = []
    for k, f in enumerate(fs):
        if cplx:
            continue
        name = "p%d" % k
        flow.add_property(f, name=name)
        exprs.append(name)
        if not f.tensorsig and big == 3 and not shift:
            flow.add_property(f * f - 3 * f, name=name + "s")
            exprs.append(name + "s")
    for k, f in enumerate(fs):
        order = 2 if cplx else rng.choice([1, 2, 2, 3] if big < 40 and not shift else [1, 2])
        f.change_scales(1)
        R.add("norm", integer(f.allreduce_data_norm("g", order) ** order), parts=parts[k], order=order)
        R.add("maxnorm", integer(f.allreduce_data_norm("g", np.inf) ** 2 if rng.random() < .5 else f.allreduce_data_max("g") ** 2), parts=parts[k])
    if exprs:
        solver.evaluate_handlers([flow.properties])
    for name in exprs:
        # the property as it is held by this process (evaluation truncates the data)
        p = [[int(round(FIX * float(x))), 0] for x in np.ravel(flow.properties[name]["g"])]
        n = comm.allreduce(len(p))
        R.add("min", fixed(flow.min(name)), parts=p, tol=1)
        R.add("max", fixed(flow.max(name)), parts=p, tol=1)
        R.add("mean", fixed(flow.grid_average(name) * n), parts=p, tol=n)
    # the reducer on arrays of any size per process
    red = flow_tools.GlobalArrayReducer(comm)
    for _ in range(2):
        n = priv.choice([0, 0, 1, 3, 5])
        if comm.allreduce(n) == 0:
            n = 2
        a = np.array([priv.randint(-30, 30) for _ in range(n)], dtype=float)
        sgn = rng.choice([0, 1, -1])
        a = a if not sgn else sgn * (np.abs(a) + 1)
        tot = comm.allreduce(n)
        p = [[int(x), 0] for x in a]
        R.add("min", integer(red.global_min(a)), parts=p)
        R.add("max", integer(red.global_max(a)), parts=p)
        R.add("mean", integer(red.global_mean(a) * tot), parts=p)
    return {"geo": {"kind": "none"}, "cfg": {"geo": str(geo), "mesh": list(mesh), "P": comm.size}, "ev": R.ev}


def poly_trace(rng, geos, meshes, comm):
    """Integrals, averages and norms of polynomials."""
    geo = rng.choice(geos)
    dtype = rng.choice([np.float64, np.float64, np.complex128])
    dl = rng.choice([1, 1.5])
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    if geo in ("box2", "box3"):
        D = int(geo[3])
        cs = d3.CartesianCoordinates(*"xyz"[:D])
        ax, bases = [], []
        for c in cs.coords:
            lo, hi = rng.choice([(0, 1), (-1, 1), (0, 2), (-2, 1)])
            if rng.random() < .5:
                bases.append(F(c, rng.choice([6, 8]), bounds=(lo, hi), dealias=dl)); ax.append({"fourier": True, "lo": lo, "hi": hi})
            else:
                bases.append(d3.Jacobi(c, 8, bounds=(lo, hi), a=rng.choice([-.5, 0]), b=rng.choice([-.5, 0]), dealias=dl)); ax.append({"fourier": False, "lo": lo, "hi": hi})
        G = {"kind": "box", "ax": ax}
    elif geo in ("disk", "annulus"):
        D, cs = 2, d3.PolarCoordinates("phi", "r")
        if geo == "disk":
            bases, G = [d3.DiskBasis(cs, (16, 8), dtype, radius=1, dealias=dl)], {"kind": geo, "lo": 0, "hi": 1}
        else:
            bases, G = [d3.AnnulusBasis(cs, (16, 8), dtype, radii=(1, 2), dealias=dl)], {"kind": geo, "lo": 1, "hi": 2}
    elif geo == "sphere":
        D, cs = 2, d3.S2Coordinates("phi", "theta")
        bases, G = [d3.SphereBasis(cs, (16, 8), dtype, radius=1, dealias=dl)], {"kind": geo, "lo": 1, "hi": 1}
    else:
        D, cs = 3, d3.SphericalCoordinates("phi", "theta", "r")
        if geo == "ball":
            bases, G = [d3.BallBasis(cs, (12, 8, 6), dtype, radius=1, dealias=dl)], {"kind": geo, "lo": 0, "hi": 1}
        else:
            bases, G = [d3.ShellBasis(cs, (12, 8, 8), dtype, radii=(1, 2), dealias=dl)], {"kind": geo, "lo": 1, "hi": 2}
    ok = [m for m in meshes if len(m) <= D - 1]
    if not ok:
        return None
    dist = d3.Distributor(cs, dtype=dtype, mesh=rng.choice(ok))
    unit = {"box": 1, "disk": 2*np.pi, "annulus": 2*np.pi}.get(G["kind"], 4*np.pi)
    if G["kind"] == "box":
        X = [np.asarray(g) for g in dist.local_grids(*bases)]
        rot = None
        dim = D
    elif D == 2 and geo != "sphere":
        ph, r = dist.local_grids(bases[0])
        X = [r*np.cos(ph), r*np.sin(ph), 0*r*ph]
        o = 0*r*ph
        rot = [[-np.sin(ph) + o, np.cos(ph) + o], [np.cos(ph) + o, np.sin(ph) + o]]
        dim = 2
    else:
        g = dist.local_grids(bases[0])
        ph, th = g[0], g[1]
        r = g[2] if D == 3 else 1 + 0*th
        X = [r*np.sin(th)*np.cos(ph), r*np.sin(th)*np.sin(ph), r*np.cos(th) + 0*ph]
        o = 0*r*ph*th
        rot = [[-np.sin(ph) + o, np.cos(ph) + o, o], [np.cos(th)*np.cos(ph) + o, np.cos(th)*np.sin(ph) + o, -np.sin(th) + o],
               [np.sin(th)*np.cos(ph) + o, np.sin(th)*np.sin(ph) + o, np.cos(th) + o]]
        dim = 3
    three = 3 if G["kind"] != "box" else D

    def terms(deg, nt):
        out = []
        for _ in range(nt):
            m = [0] * three
            for _ in range(rng.randint(0, deg)):
                m[rng.randrange(three if D == 3 or geo == "sphere" or G["kind"] == "box" else 2)] += 1
            if G["kind"] == "box":
                m = [0 if a["fourier"] else x for a, x in zip(G["ax"], m)]
            out.append({"c": rng.choice([-3, -2, -1, 1, 2, 3]), "m": m})
        return out

    def values(ts):
        s = 0
        for t in ts:
            v = t["c"] * np.ones([1] * D)
            for x, k in zip(X, t["m"]):
                v = v * x**k
            s = s + v
        return s
    R = Recorder(comm)
    cplx = dtype is np.complex128
    fs = []
    for k in range(2):
        f = dist.Field(name="f%d" % k, bases=bases)
        ts = terms(3, rng.randint(1, 3))
        f["g"] = values(ts)
        fs.append((f, ts))
    u = dist.Field(bases=bases)
    problem = d3.IVP([u])
    problem.add_equation((d3.TimeDerivative(u), 0))
    solver = problem.build_solver("RK111")
    flow = flow_tools.GlobalFlowProperty(solver)
    if not cplx and geo != "sphere":  # integrals over a lone sphere are not implemented
        for k, (f, ts) in enumerate(fs):
            flow.add_property(f if k else 2 * f, name="q%d" % k, precompute_integral=rng.random() < .5)
        solver.evaluate_handlers([flow.properties])
        for k, (f, ts) in enumerate(fs):
            tt = ts if k else [dict(t, c=2*t["c"]) for t in ts]
            R.add("integral", fixed(flow.volume_integral("q%d" % k), unit), terms=tt)
    for f, ts in fs:
        if geo != "sphere":
            v = d3.Integrate(f).evaluate().allgather_data("g").ravel()
            R.add("integral", fixed(v[0], unit), terms=ts)
        if geo in ("ball", "shell"):
            continue  # volume averages are not implemented there
        A = d3.Average(f).evaluate()
        v = A.allgather_data("g").ravel()
        R.add("average", fixed(v[0]), terms=ts)
    # L2 norms of a scalar, vector or tensor
    rank = rng.choice([0, 1, 1, 2]) if geo != "sphere" else 0
    h = dist.Field(bases=bases, tensorsig=(cs,) * rank)
    comps = [terms(2, rng.randint(1, 2)) for _ in range(dim ** rank)]
    phase = rng.choice([1, 1j, (3 + 4j) / 5]) if cplx else 1
    cart = [phase * (values(c) + 0 * sum(X)) for c in comps]
    if rank == 0:
        h["g"] = cart[0]
    elif rank == 1:
        h["g"] = np.array(cart) if rot is None else np.array([sum(rot[i][a] * cart[a] for a in range(dim)) for i in range(dim)])
    else:
        C = [[cart[a * dim + b] for b in range(dim)] for a in range(dim)]
        h["g"] = np.array(C) if rot is None else np.array([[sum(rot[i][a] * rot[j][b] * C[a][b] for a in range(dim) for b in range(dim)) for j in range(dim)] for i in range(dim)])
    if rng.random() < .5:
        h["c"]
    for norm in ((False,) if geo in ("ball", "shell") else (True,) if geo == "sphere" else (True, False)):
        n = h.allreduce_L2_norm(normalize_volume=norm)
        R.add("l2", fixed(n**2, 1 if norm else unit), comps=comps, normalize=norm, tol=2 * sum(len(c)**2 for c in comps) + 8)
    if n > 1e-6:
        norm = geo == "sphere" or rng.random() < .5 and geo not in ("ball", "shell")
        h.normalize(normalize_volume=norm)
        R.add("unit", integer(round(1e6 * float(np.real(h.allreduce_L2_norm(normalize_volume=norm))))))
    return {"geo": G, "cfg": {"geo": str(geo), "dtype": dtype.__name__, "rank": rank, "P": comm.size}, "ev": R.ev}


def drive(seed, n, meshes, geos, polys):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rng = random.Random("red/%s/%s" % (seed, comm.size))
    priv = random.Random("red/%s/%s/%s" % (seed, comm.size, comm.rank))
    out = []
    for t in range(n):
        tr = data_trace(rng, geos, meshes, comm, priv) if t % 2 == 0 else poly_trace(rng, polys, meshes, comm)
        if tr:
            out.append(tr)
    return out
