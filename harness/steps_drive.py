"""Runs of the real integrators on small exact problems, recorded state by state (C11, C12)."""
import random
from fractions import Fraction
from ded import np, d3
from dedalus.core import timesteppers

DEC = 10**30
MULTISTEP = ["CNAB1", "SBDF1", "CNAB2", "MCNAB2", "SBDF2", "CNLF2", "SBDF3", "SBDF4"]
RK = ["RK111", "RK222", "RK443", "RKSMR", "RKGFY"]
SOLVERS = [None, None, "SuperluNaturalSpsolve", "SuperluColamdFactorized", "SuperluNaturalFactorizedTranspose", "ScipyDenseLU", "DenseInverse", "SparseInverse"]


def fx(x):
    return int(Fraction(float(x)) * DEC)


def block(rng):
    """Matrices of two coupled equations: well conditioned, sometimes with an algebraic row."""
    o = lambda *c: rng.choice(c)
    M = [[o(1, 1, 2), o(0, 0, .5)], [o(0, 0, -.5), o(1, 1, 3)]]
    L = [[o(0, 0, 1, 2, 40), o(0, 1, -1)], [o(0, 1, -1), o(0, 1, 2)]]
    if rng.random() < .25:
        M[1], L[1] = [0, 0], [o(1, -1), o(2, 3)]
    return M, L


def space(rng, dtype):
    """Bases with shape functions (and minus their eigenvalue under the Laplacian, if used)."""
    kind = rng.choice(["none", "fourier", "fourier", "two", "jacobi", "tau", "sphere", "disk"])
    dl = rng.choice([1, 1.5])
    F = d3.RealFourier if dtype is np.float64 else d3.ComplexFourier
    if kind in ("none", "fourier", "jacobi", "tau"):
        cs = d3.CartesianCoordinates("x")
        dist = d3.Distributor(cs, dtype=dtype)
        if kind == "none":
            return kind, dist, cs, None, []
        if kind == "fourier":
            b = F(cs["x"], 8, bounds=(0, 2*np.pi), dealias=dl)
            x = dist.local_grid(b)
            return kind, dist, cs, (b,), [(np.cos(k*x), k*k) for k in rng.choice([[0, 1], [1, 2], [0, 1, 3], [2]])]
        b = rng.choice([d3.Chebyshev, d3.Legendre])(cs["x"], 6, bounds=(-1, 1), dealias=dl)
        x = dist.local_grid(b)
        return kind, dist, cs, (b,), [(1 - x**2, 0)] if kind == "tau" else [(x**p, 0) for p in rng.sample([0, 1, 2, 4], 2)]
    if kind == "two":
        cs = d3.CartesianCoordinates("x", "y")
        dist = d3.Distributor(cs, dtype=dtype)
        b = (F(cs["x"], 6, bounds=(0, 2*np.pi), dealias=dl), F(cs["y"], 6, bounds=(0, 2*np.pi), dealias=dl))
        x, y = dist.local_grids(*b)
        return kind, dist, cs, b, [(np.cos(k*x) * np.cos(l*y), k*k + l*l) for k, l in rng.sample([(0, 0), (0, 1), (1, 0), (1, 2), (2, 1)], 2)]
    if kind == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        dist = d3.Distributor(cs, dtype=dtype)
        b = d3.SphereBasis(cs, (8, 6), dtype, dealias=dl)
        ph, th = dist.local_grids(b)
        f = [(np.cos(th) + 0*ph, 2), (1 + 0*ph*th, 0), (np.sin(th) * np.cos(ph), 2), ((3*np.cos(th)**2 - 1) + 0*ph, 6)]
        return kind, dist, cs, (b,), rng.sample(f, 2)
    cs = d3.PolarCoordinates("phi", "r")
    dist = d3.Distributor(cs, dtype=dtype)
    b = d3.DiskBasis(cs, (8, 6), dtype, dealias=dl)
    ph, r = dist.local_grids(b)
    return kind, dist, cs, (b,), rng.sample([(r * np.cos(ph), 0), (1 - r**2 + 0*ph, 0), (r**2 * np.cos(2*ph), 0)], 2)


def trace(rng, schemes):
    dtype = rng.choice([np.float64, np.float64, np.complex128])
    kind, dist, cs, bases, shapes = space(rng, dtype)
    scheme = rng.choice(schemes)
    ode = kind == "none" or rng.random() < .6
    n = len(shapes)
    nv = 2 * (n + ode)
    t = dist.Field(name="t")
    t0 = rng.choice([0, 0, .5, -1])
    t["g"] = t0
    own = rng.random() < .5
    vars_, eqs, blocks, polys = [], [], [], []
    coef = lambda: rng.choice([-1, -.5, .5, 1, 2])
    problem_vars = []
    if ode:
        a, b = dist.Field(name="a"), dist.Field(name="b")
        problem_vars += [a, b]
    if n:
        u, v = dist.Field(name="u", bases=bases), dist.Field(name="v", bases=bases)
        problem_vars += [u, v]
        if kind == "tau":
            taus = [dist.Field(name="tau%d" % i) for i in range(4)]
            problem_vars += taus
    rng.shuffle(problem_vars)
    problem = d3.IVP(problem_vars, time=t) if own or t0 else d3.IVP(problem_vars)
    tt = problem.time
    todo = []

    def tpow(p):
        return 1 if p == 0 else tt if p == 1 else tt * tt
    if ode:
        M, L = block(rng)
        blocks.append({"M": M, "L": L})
        for i in range(2):
            terms, expr = [], 0
            for _ in range(rng.randint(0, 3)):
                c, p, e = coef() / 4, rng.choice([0, 0, 1, 2]), rng.choice([[0, 0], [1, 0], [0, 1], [1, 1], [2, 0]])
                terms.append({"c": c, "e": e + [0] * (2*n), "t": p})
                m = c * tpow(p)
                for w, k in zip((a, b), e):
                    for _ in range(k):
                        m = w * m
                expr = expr + m
            polys.append(terms)
            lhs = sum([M[i][j] * d3.dt(w) for j, w in ((0, a), (1, b)) if M[i][j]] + [L[i][j] * w for j, w in ((0, a), (1, b)) if L[i][j]])
            todo.append((lhs if not isinstance(lhs, int) else 0*a + d3.dt(a)*0, expr))
    if n:
        M, L = block(rng)
        N = [[rng.choice([0, 1, .5]), 0], [0, rng.choice([0, 1])]] if kind in ("fourier", "two", "sphere") else [[0, 0], [0, 0]]
        if M[1] == [0, 0]:
            N[1] = [0, 0]
        base = len(polys)
        for f, k in shapes:
            blocks.append({"M": M, "L": [[L[i][j] + k * N[i][j] for j in range(2)] for i in range(2)]})
            polys += [[], []]
        for i in range(2):
            expr = 0
            for _ in range(rng.randint(0, 3)):
                c, p = coef() / 4, rng.choice([0, 0, 1, 2])
                e = rng.choice([[0, 0], [1, 0], [0, 1], [1, 1]]) if ode else []
                w = rng.choice(["u", "v", "g"])
                m = c * tpow(p)
                for z, k in zip((a, b) if ode else (), e):
                    if k:
                        m = z * m
                if w == "g":
                    g = dist.Field(bases=bases)
                    gk = [rng.choice([-1, 1, 2]) for _ in shapes]
                    g["g"] = sum(x * f for x, (f, k) in zip(gk, shapes))
                    m = m * g
                else:
                    m = m * (u if w == "u" else v)
                    gk = [1] * n
                for s in range(n):
                    ex = e + [0] * (2*n)
                    if w != "g":
                        ex[2*ode + 2*s + (w == "v")] += 1
                    polys[base + 2*s + i].append({"c": c * gk[s], "e": ex, "t": p})
                expr = expr + m
            parts = [M[i][j] * d3.dt(w) for j, w in ((0, u), (1, v)) if M[i][j]] + [L[i][j] * w for j, w in ((0, u), (1, v)) if L[i][j]]
            parts += [-N[i][j] * d3.lap(w) for j, w in ((0, u), (1, v)) if N[i][j]]
            if kind == "tau":
                lb = bases[0].derivative_basis(rng.choice([0, 1]))
                parts += [d3.Lift(taus[2*i], lb, -1), d3.Lift(taus[2*i + 1], lb, -2)]
            todo.append((sum(parts), expr))
        if kind == "tau":
            for w in (u, v):
                todo += [(w(x=-1), 0), (w(x=1), 0)]
    rng.shuffle(todo)
    for eq in todo:
        problem.add_equation(eq)
    kw = {}
    if rng.random() < .4:
        kw["matsolver"] = rng.choice(SOLVERS)
    if rng.random() < .5:
        kw["store_expanded_matrices"] = rng.random() < .5
    if rng.random() < .3:
        kw["enforce_real_cadence"] = rng.choice([1, 2, 3])
    if kind == "two" and rng.random() < .5:
        kw["matrix_coupling"] = rng.choice([[False, True], [True, True]])
    ts = getattr(timesteppers, scheme)
    if scheme in timesteppers.schemes and rng.random() < .5:
        ts = scheme
    solver = problem.build_solver(ts, **kw)
    X0 = [rng.choice([-1, -.5, .5, 1, 1.5]) for _ in range(nv)]
    if blocks[0]["M"][1] == [0, 0] and rng.random() < .5:
        pass
    basis = np.array([f.ravel() for f, k in shapes]).T if n else None

    def put(X):
        o = 0
        if ode:
            a["g"], b["g"] = X[0], X[1]
            o = 2
        if n:
            for w, s in ((u, 0), (v, 1)):
                w.change_scales(1)
                w["g"] = sum(X[o + 2*i + s] * f for i, (f, k) in enumerate(shapes))

    def get():
        out = []
        if ode:
            out += [complex(w.copy()["g"].ravel()[0]) for w in (a, b)]
        if n:
            cols = []
            for w in (u, v):
                w = w.copy()
                w.change_scales(1)
                d = w["g"].ravel()
                x = np.linalg.lstsq(basis.astype(complex), d.astype(complex), rcond=None)[0]
                if np.abs(basis @ x - d).max() > 1e-8 * (1 + np.abs(d).max()):
                    raise RuntimeError("state leaves the span of its shapes: %s %s %s" % (scheme, kind, np.abs(basis @ x - d).max()))
                cols.append(x)
            for i in range(n):
                out += [complex(cols[0][i]), complex(cols[1][i])]
        if max([abs(z.imag) for z in out]) > 1e-9 * (1 + max(abs(z) for z in out)):
            raise RuntimeError("complex state")
        return [z.real for z in out]
    put(X0)
    if rng.random() < .5:
        h = solver.evaluator.add_dictionary_handler(iter=rng.choice([1, 2]))
        w = rng.choice(problem_vars)
        h.add_task(w * w, name="sq")
    ev = []
    dts = [rng.choice([1, 2, 4, 8, 3, 12, 20]) / 64 * rng.choice([1, 1, .25]) for _ in range(2)]
    dts.append(dts[0] * rng.choice([1 + 2**-20, 1 + 2**-10, 1 - 2**-15, 2, .5]))
    if rng.random() < .3:
        # as if restarted from a saved state
        solver.iteration = solver.initial_iteration = rng.choice([1, 2, 7])
    dt = dts[0]
    t_now = t0
    for s in range(rng.randint(3, 9)):
        r = rng.random()
        if r < .15:
            X = [rng.choice([-1, -.5, .5, 1, 1.5]) for _ in range(nv)]
            put(X)
            ev.append({"op": "set", "k": 0, "x": X, "t": t_now})
        elif r < .22:
            t_now = rng.choice([0, .25, 2])
            solver.sim_time = t_now
            ev.append({"op": "set", "k": 0, "x": ev[-1]["x"] if ev else X0, "t": t_now})
        if rng.random() < .3:
            w = rng.choice(problem_vars)
            rng.choice([lambda: w["g"], lambda: w["c"], lambda: w.change_scales(rng.choice([1, 1.5, 2])), lambda: (w.change_scales(2), w["g"])])()
        if rng.random() < .5:
            dt = rng.choice(dts)
        solver.step(dt)
        x = get()
        t_now = solver.sim_time
        if not np.all(np.isfinite(x)) or max(map(abs, x)) > 1e3:
            break
        ev.append({"op": "step", "k": dt, "x": x, "t": t_now})
        if abs(complex(tt["g"].ravel()[0]) - t_now) > 1e-12:
            raise RuntimeError("time field differs from the simulation time")
    return {"scheme": scheme, "P": {"blocks": blocks, "F": polys}, "x0": X0, "t0": t0, "ev": ev, "cfg": [kind, dtype.__name__, str(kw)]}


def drive(seed, n, schemes):
    rng = random.Random("steps/%s" % seed)
    return [trace(rng, schemes) for _ in range(n)]


def quint(traces):
    """Traces as a Quint definition."""
    L = lambda l: "[" + ", ".join(l) + "]"
    nums = lambda l: L([str(fx(x)) for x in l])
    mat = lambda m: L([nums(r) for r in m])

    def one(i, T):
        bl = L(["{ M: %s, L: %s }" % (mat(b["M"]), mat(b["L"])) for b in T["P"]["blocks"]])
        F = L([L(["{ c: %d, e: %s, t: %d }" % (fx(m["c"]), L(map(str, m["e"])), m["t"]) for m in p]) for p in T["P"]["F"]])
        ev = L(['{ op: "%s", k: %d, x: %s, t: %d }' % (e["op"], fx(e["k"]), nums(e["x"]), fx(e["t"])) for e in T["ev"]])
        return '  pure val T%d: Trace = { scheme: "%s", P: { blocks: %s, F: %s }, x0: %s, t0: %d, ev: %s }' % (i, T["scheme"], bl, F, nums(T["x0"]), fx(T["t0"]), ev)
    return "\n".join(one(i, T) for i, T in enumerate(traces)) + "\n  pure val TRACES: List[Trace] = " + L(["T%d" % i for i in range(len(traces))])
