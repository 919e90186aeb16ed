"""Random eigenvalue problems with integer spectra: dense and sparse solves and modes, recorded for spec/EigenTrace.tla (C21)."""
import random
from ded import np, d3
MIL = 10**6


def unimodular(rng, J):
    A = np.eye(J, dtype=int)
    for _ in range(rng.choice([0, 1, 2]) if J > 1 else 0):
        i, j = rng.sample(range(J), 2)
        B = np.eye(J, dtype=int); B[i, j] = rng.choice([-1, 1, 2])
        A = A @ B
    p = list(range(J)); rng.shuffle(p)
    return A[p]


def geometry(rng, kind):
    """-> coords, bases, tensor signature, spec geometry, negative Laplacian of the separate directions, derivative, Op, a function giving op"""
    dt = np.complex128
    if kind == "cart":
        shape = rng.choice(["f", "ff", "fp", "fp", "p", "ffp", "pf"])
        cs = d3.CartesianCoordinates(*"xyz"[:len(shape)]) if len(shape) > 1 or rng.random() < .5 else d3.Coordinate("x")
        coords = cs.coords if len(shape) > 1 or isinstance(cs, d3.CartesianCoordinates) else (cs,)
        bases, ax, lap, dd, pc, used = [], [], [], None, None, False
        for c, k in zip(coords, shape):
            if k == "f":
                n = rng.choice([3, 5]) if shape in ("f", "fp", "pf") else 3
                bases.append(d3.ComplexFourier(c, n, bounds=(0, 2*np.pi)))
                use = not used and rng.random() < .6
                ax.append({"k": "f", "n": n, "d": use})
                lap.append(c)
                if use:
                    dd = c; used = True
            else:
                n = rng.choice([3, 4, 5, 6])
                bases.append(d3.Jacobi(c, n, bounds=rng.choice([(-1, 1), (0, 1)]), a=rng.choice([-.5, 0]), b=rng.choice([-.5, 0]), dealias=2))
                ax.append({"k": "p", "n": n, "d": False}); pc = c
        return cs, tuple(bases), (), {"kind": "cart", "ax": ax}, lap, dd, pc, max([a["n"] for a in ax if a["k"] == "p"], default=0)
    if kind == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        b = d3.SphereBasis(cs, (4, rng.choice([4, 5, 6])), dt, dealias=2)
        sig = (cs,) if rng.random() < .4 else ()
        return cs, (b,), sig, {"kind": "sphere", "lmax": b.Lmax, "spins": [-1, 1] if sig else [0]}, [], None, None, 0
    if kind in ("disk", "annulus"):
        cs = d3.PolarCoordinates("phi", "r")
        sig = (cs,) if rng.random() < .4 else ()
        if kind == "disk":
            b = d3.DiskBasis(cs, (4, rng.choice([4, 5, 6])), dt, dealias=2)
            return cs, (b,), sig, {"kind": "disk", "nmax": b.Nmax, "spins": [-1, 1] if sig else [0]}, [], None, b, 12
        b = d3.AnnulusBasis(cs, (4, rng.choice([4, 5, 6])), dt, radii=(1, 2), dealias=2)
        return cs, (b,), sig, {"kind": "rad", "nmax": b.Nmax, "ncomp": 2 if sig else 1}, [], None, b, 12
    cs = d3.SphericalCoordinates("phi", "theta", "r")
    sig = (cs,) if rng.random() < .4 else ()
    if kind == "ball":
        b = d3.BallBasis(cs, (4, 3, rng.choice([4, 5, 6])), dt, dealias=2)
        return cs, (b,), sig, {"kind": "ball", "nmax": b.shape[2] - 1, "regs": [-1, 1, 0] if sig else [0]}, [], None, b, 12
    b = d3.ShellBasis(cs, (4, 3, rng.choice([4, 5, 6])), dt, radii=(1, 2), dealias=2)
    return cs, (b,), sig, {"kind": "shell", "nmax": b.shape[2] - 1, "regs": [-1, 1, 0] if sig else [0]}, [], None, b, 12


def setup(rng, kind):
    cs, bases, sig, G, lapc, dd, pc, nmax = geometry(rng, kind)
    dist = d3.Distributor(cs, dtype=np.complex128)
    J = rng.choice([1, 2, 2, 3]) if not sig else rng.choice([1, 2])
    P, Q = unimodular(rng, J), unimodular(rng, J)
    E = np.array([1 if rng.random() < .8 else 0 for _ in range(J)])
    if not E.any():
        E[rng.randrange(J)] = 1
    while True:
        D = np.array([rng.randint(-9, 9) for _ in range(J)])
        if len(set(D.tolist())) == J:
            break
    e = np.array([rng.choice([0, 1, -1, 2]) if (lapc or kind == "sphere") else 0 for _ in range(J)])
    f = np.array([rng.choice([0, 1, -2, 3]) if dd is not None else 0 for _ in range(J)])
    # algebraic rows must stay solvable: no zero on their diagonal
    e[E == 0] = 0; f[E == 0] = 0; D[E == 0] = np.where(np.abs(D[E == 0]) < 4, 11, D[E == 0])
    op = [0, 0, 0]
    lower = None
    if pc is not None:
        while True:
            op = [rng.randint(-3, 3), rng.choice([-2, -1, 1, 2, 3]), rng.choice([0, 1, -1, 2]) if kind == "cart" else 0]
            qs = [op[0] + op[1]*n + op[2]*n*(n-1) for n in range(nmax)]
            if len(set(qs)) == nmax:
                break
    par = rng.choice([0, 0, 1, -2])
    taus = []
    lam = dist.Field(name="lam")
    d = dist.Field(name="d"); d["g"] = par
    us = [dist.Field(name="u%d" % i, bases=bases, tensorsig=sig) for i in range(J)]
    M = P @ np.diag(E) @ Q
    L0 = -P @ np.diag(D) @ Q; Ld = -P @ Q; L2 = -P @ np.diag(e) @ Q; L1 = -P @ np.diag(f) @ Q
    if kind == "cart" and pc is not None:
        bc = rng.random() < .5
        x = dist.Field(bases=[b for b in bases if b.coord is pc or b.coord == pc][:1])
        xb = [b for b in bases if b.coord == pc][0]
        x0 = 0
        x["g"] = dist.local_grid(xb)
        w = rng.choice([0, 1, -1])     # lowering terms keep the spectrum
        if bc:
            # homogeneous polynomials about an end of the interval, without the constant one
            x0 = rng.choice(xb.bounds)
            x["g"] -= x0
            w = 0
            ax = [a for a in G["ax"] if a["k"] == "p"][0]; ax["d"] = True
            taus = [dist.Field(name="t%d" % i, bases=[b for b in bases if b is not xb]) for i in range(J)]
            lb = xb if rng.random() < .5 else xb.derivative_basis(rng.choice([1, 2]))
        dz = lambda u: d3.Differentiate(u, pc)
        def Op(u):
            r = op[0]*u + op[1]*x*dz(u)
            if op[2]:
                r = r + op[2]*(x*x).evaluate()*dz(dz(u)) if rng.random() < .5 else r + op[2]*(x*x)*dz(dz(u))
            if w:
                r = r + w*dz(u)
            return r
    elif pc is not None:
        rv = dist.VectorField(cs, bases=pc.radial_basis if hasattr(pc, "radial_basis") else pc)
        r = dist.local_grids(pc)[-1]
        rv["g"][-1] = r
        w = rng.choice([0, 1]) if kind in ("disk", "ball") else 0
        def Op(u):
            z = op[0]*u + op[1]*(rv @ d3.grad(u))
            return z + w*d3.lap(u) if w else z
    else:
        Op = None
    if kind == "sphere":
        neglap = lambda u: -d3.lap(u)
    else:
        def neglap(u):
            z = None
            for c in lapc:
                t = -1*d3.Differentiate(d3.Differentiate(u, c), c)
                z = t if z is None else z + t
            return z
    bc = bool(taus)
    problem = d3.EVP(us + taus if rng.random() < .5 else taus + us, eigenvalue=lam)
    order = list(range(J)) + ([-1 - i for i in range(J)] if bc else []); rng.shuffle(order)
    for i in order:
        if i < 0:
            problem.add_equation((d3.Interpolate(us[-1-i], pc, x0), 0))
            continue
        terms = [d3.Lift(taus[i], lb, -1)] if bc else []
        for j, u in enumerate(us):
            if M[i, j]:
                terms.append(int(M[i, j]) * lam * u if rng.random() < .5 else lam * (int(M[i, j]) * u))
                if Op is not None:
                    terms.append(-int(M[i, j]) * Op(u))
            if L0[i, j]:
                terms.append(int(L0[i, j]) * u)
            if Ld[i, j]:
                terms.append(int(Ld[i, j]) * d * u)
            if L2[i, j]:
                terms.append(int(L2[i, j]) * neglap(u))
            if L1[i, j]:
                terms.append(int(L1[i, j]) * d3.Differentiate(u, dd))
        rng.shuffle(terms)
        lhs = terms[0]
        for t in terms[1:]:
            lhs = lhs + t
        problem.add_equation((lhs, 0))
    kw = {}
    if kind == "cart" and rng.random() < .4:
        c = [bool(v) for v in problem.matrix_coupling]
        c = [v or (rng.random() < .5) for v in c]
        kw["matrix_coupling"] = tuple(c)
    elif kind == "sphere" and rng.random() < .5:
        kw["matrix_coupling"] = (False, False)
    elif kind in ("disk", "annulus", "ball", "shell"):
        kw["matrix_coupling"] = tuple([False] * (dist.dim - 1) + [True])
    for k in ("bc_top", "tau_left", "interleave_components"):
        if rng.random() < .3:
            kw[k] = rng.random() < .5
    solver = problem.build_solver(**kw)
    prob = {"P": P.tolist(), "Q": Q.tolist(), "E": E.tolist(), "D": D.tolist(), "e": e.tolist(), "f": f.tolist(), "op": op, "geo": G}
    return problem, solver, us, lam, d, prob, par


def grp(g):
    return [-99 if x is None else int(x) for x in g]


def rel(x, s):
    v = float(x) / max(float(s), 1e-300) * MIL
    return int(min(v, 10**9)) if v == v else 10**9


def cases(w):
    """Eigenvalues as integers with their deviation."""
    out = []
    for z in w:
        re, im = int(round(z.real)), int(round(z.imag))
        out.append([re, im, int(min(10**9, abs(z - complex(re, im)) / max(1, abs(z)) * MIL))])
    return out


def trace(seed, kind, t, steps):
    rng = random.Random("eig/%s/%s/%d" % (seed, kind, t))
    problem, solver, us, lam, d, prob, par0 = setup(rng, kind)
    ev, cur, built, par, simple, inside = [], None, {}, par0, None, None
    sps = list(solver.subproblems)
    i = 0
    while i < steps:
        i += 1
        o = rng.random()
        if o < .5 or cur is None:
            k = rng.randrange(len(sps)); sp = sps[k]
            rebuild = rng.random() < .3
            left = rng.random() < .5
            kw = {"left": left}
            if left:
                kw["normalize_left"] = rng.random() < .7
            sparse = False
            fin = built.get(k)
            if fin is not None and fin["simple"] and sp.shape[0] >= 5 and rng.random() < .6:
                sparse = True
                n = rng.randint(1, max(1, min(4, sp.shape[0] - 3, len(fin["w"]) - 1)))
                c = rng.choice(fin["w"])
                tgt = [10*int(round(c.real)) + rng.choice([-4, 3, 14, -17]), 10*int(round(c.imag)) + rng.choice([0, 1, 2])]
                target = complex(tgt[0] / 10, tgt[1] / 10)
                if rng.random() < .3:
                    kw["v0"] = np.random.RandomState(rng.randrange(10**6)).rand(solver.eigenvectors.shape[0] if False else sp.pre_right.shape[0]) + .1
                try:
                    solver.solve_sparse(sp, n, target, rebuild_matrices=rebuild, **kw)
                except RuntimeError as x:
                    if "left eigenvalues" in str(x):
                        cur = None
                        continue
                    raise
                # ties of the distance beyond the asked number make the choice free: the specification allows either
            else:
                solver.solve_dense(sp, rebuild_matrices=rebuild, **kw)
            w = np.array(solver.eigenvalues)
            keep = np.flatnonzero(np.isfinite(w) & (np.abs(w) < 1e6))
            w = w[keep]
            vals = cases(w)
            simp = len({(a, b) for a, b, _ in vals}) == len(vals)
            R = np.array(solver.eigenvectors)[:, keep]
            Lf = (sp.pre_left_pinv @ sp.L_min @ sp.pre_right_pinv).toarray(); Mf = (sp.pre_left_pinv @ sp.M_min @ sp.pre_right_pinv).toarray()
            size = lambda z: np.abs(Lf).max() + abs(z) * np.abs(Mf).max()
            right = [rel(np.abs(Lf @ R[:, a] + w[a] * (Mf @ R[:, a])).max(), np.abs(R[:, a]).max() * size(w[a])) for a in range(len(w))]
            lf, bi = [], []
            if left:
                Y = np.array(solver.left_eigenvectors)[:, keep]
                lf = [rel(np.abs(Y[:, a].conj() @ Lf + w[a] * (Y[:, a].conj() @ Mf)).max(), np.abs(Y[:, a]).max() * size(w[a])) for a in range(len(w))]
                if simp and kw["normalize_left"]:
                    B = np.array(solver.modified_left_eigenvectors)[:, keep].conj().T @ R
                    bi = [[int(round(min(1e9, abs(x - (a == b)) * MIL))) + (MIL if a == b else 0) for b, x in enumerate(row)] for a, row in enumerate(B)]
            ev.append({"op": "solve", "sp": k + 1, "rebuild": rebuild, "sparse": sparse, "n": n if sparse else 0, "target": tgt if sparse else [0, 0],
                       "groups": [grp(s.group) for s in sp.subsystems], "size": sp.shape[0], "vals": vals, "right": right, "left": lf, "bi": bi})
            if not sparse:
                built[k] = {"simple": simp, "w": list(w)}
            elif rebuild:
                built.pop(k, None)
            cur = (k, keep)
        elif o < .85 and len(cur[1]):
            k, keep = cur; sp = sps[k]
            s = rng.randrange(len(sp.subsystems))
            if kind in ("sphere", "disk", "annulus", "ball", "shell") and abs(sp.subsystems[s].group[0]) == 2:
                continue     # the Nyquist mode is solved for but not transformed to the grid
            for u in problem.variables:
                u[rng.choice("gc")] = rng.choice([0, 1, 5]) if rng.random() < .7 else 0
            a = int(rng.choice(list(keep)))
            solver.set_state(a, s if rng.random() < .5 else sp.subsystems[s])
            nz = set()
            for u in problem.variables:
                c = u["c"]
                Gr = solver.dist.coeff_layout.local_group_arrays(u.domain, 1)
                mask = np.ma.getmaskarray(Gr); Gd = np.ma.getdata(Gr)
                big = np.abs(c) > 0
                big = big.reshape((-1,) + big.shape[len(u.tensorsig):]).any(axis=0)
                for ix in zip(*np.nonzero(big)):
                    nz.add(tuple(-99 if solver.matrix_coupling[b] else int(Gd[(b,) + ix]) for b in range(Gd.shape[0])))
            scale = max(np.abs(u["g"]).max() for u in us)
            res = 0
            lamv = complex(np.ravel(lam["g"])[0])
            size = 1 + abs(lamv) + max(np.abs(sp.L_min).max() if sp.L_min.nnz else 0, 1)
            for eq in problem.equations:
                res = max(res, np.abs(eq["LHS"].evaluate()["g"]).max() / (scale * size) if scale else 9)
            ev.append({"op": "set", "nonzero": bool(scale > 0), "group": grp(sp.subsystems[s].group), "nz": [list(g) for g in sorted(nz)],
                       "val": cases([solver.eigenvalues[a]])[0], "residual": rel(res, 1), "lam": rel(abs(lamv - solver.eigenvalues[a]), 1 + abs(lamv))})
        else:
            par = rng.choice([0, 1, 2, -2, 4])
            # keep the algebraic rows solvable
            if any(x == 0 and y + par == 0 for x, y in zip(prob["E"], prob["D"])):
                par = 0
            d["g"] = par
            ev.append({"op": "assign", "par": par})
    cap = problem.variables[0].domain.bases[-1].shape[-1] - 3 if kind in ("disk", "annulus", "ball", "shell") else 99
    return {"kind": kind, "cap": cap, "prob": prob, "par": par0, "nsp": len(sps), "tol": 200, "ev": ev}


def drive(seed, n, kind, steps):
    return [trace(seed, kind, t, steps) for t in range(n)]
