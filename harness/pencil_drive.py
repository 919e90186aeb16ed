"""Random problems on any process mesh: what every subproblem gathers from its variables and equations (C20)."""
import itertools, random
from ded import np, d3
from dedalus.core import solvers, subsystems
from partition_drive import DIMS
GARBAGE = -7


class Bare(solvers.SolverBase):
    matsolver_default = "MATRIX_SOLVER"
    matrices = ["L"]


def flat(n):
    return {"dim": n, "spin": [0] * n, "reg": [0] * n}


def config(rng, geo):
    """-> coords for the distributor, dtype, bases of three domains, tensor systems, per-axis spec of each, couplings to try"""
    cplx = rng.random() < .4
    dtype = np.complex128 if cplx else np.float64
    F = d3.ComplexFourier if cplx else d3.RealFourier
    fk, ak = ("cf", "azc") if cplx else ("rf", "azr")
    if geo in (2, 3, 4):
        cs = d3.CartesianCoordinates(*["x", "y", "z", "w"][:geo])
        bases, ax, sep = [], [], []
        for i, c in enumerate(cs.coords):
            n = rng.choice([2, 4, 6] if geo < 4 else [2, 4])
            if rng.random() < .6:
                if cplx and rng.random() < .5:
                    n += 1
                bases.append(F(c, n, bounds=(0, rng.choice([1, 2])))); ax.append({"k": fk, "n": n}); sep.append(True)
            else:
                n = rng.choice([2, 3, 4])
                bases.append(d3.Jacobi(c, n, bounds=(0, 1), a=rng.choice([-.5, 0, .5]), b=-.5)); ax.append({"k": "jac", "n": n}); sep.append(False)
        sets = [list(range(geo))] + [[i for i in range(geo) if rng.random() < .6] for _ in range(2)]
        doms = [(tuple(bases[i] for i in s), [ax[i] if i in s else {"k": "const", "n": 1} for i in range(geo)]) for s in sets]
        coupled = [(not s) or rng.random() < .25 for s in sep]
        return cs, dtype, doms, [(cs, flat(geo))], coupled
    const = {"k": "const", "n": 1}
    if geo in ("disk", "annulus", "cylinder"):
        cp = d3.PolarCoordinates("phi", "r")
        m, n = rng.choice([4, 8]), rng.choice([3, 4])
        if geo == "annulus":
            b, k = d3.AnnulusBasis(cp, (m, n), dtype, radii=(1, 2)), "annu"; edge = b.outer_edge
        else:
            n = max(n, (m // 2 - (0 if cplx else 1)) // 2 + 1)
            b, k = d3.DiskBasis(cp, (m, n), dtype), "disk"; edge = b.edge
        A, R = {"k": ak, "n": m}, {"k": k, "n": n}
        sp = {"dim": 2, "spin": [-1, 1], "reg": [0, 0]}
        if geo != "cylinder":
            return cp, dtype, [((b,), [A, R]), ((edge,), [A, const]), ((), [const, const])], [(cp, sp)], [False, True]
        cz = d3.Coordinate("z")
        nz = rng.choice([2, 4])
        if rng.random() < .6:
            zb, Z, zc = F(cz, nz, bounds=(0, 1)), {"k": fk, "n": nz}, False
        else:
            zb, Z, zc = d3.Jacobi(cz, nz, bounds=(0, 1), a=0, b=0), {"k": "jac", "n": nz}, True
        dp = d3.DirectProduct(cz, cp)
        dpd = {"dim": 3, "spin": [0, -1, 1], "reg": [0, 0, 0]}
        doms = [((zb, b), [Z, A, R]), ((b,), [const, A, R]), ((zb, edge), [Z, A, const]), ((edge,), [const, A, const]), ((zb,), [Z, const, const])]
        return (cz, cp), dtype, doms, [(dp, dpd), (cp, sp), (cz, flat(1))], [zc, False, True]
    na = rng.choice([4, 8]); nt = rng.choice([3, 4, 5] if na == 4 else [4, 5, 6])
    nl = nt if cplx else nt - 1     # real triangular truncations drop the last degree
    if geo == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        b = d3.SphereBasis(cs, (na, nt), dtype)
        return cs, dtype, [((b,), [{"k": ak, "n": na}, {"k": "colat", "n": nl}]), ((), [const, const])], [(cs, {"dim": 2, "spin": [-1, 1], "reg": [0, 0]})], [False, rng.random() < .6]
    cs = d3.SphericalCoordinates("phi", "theta", "r")
    nr = rng.choice([3, 4])
    A, C = {"k": ak, "n": na}, {"k": "colat", "n": nl}
    if geo == "ball":
        nr = max(nr, (nt - 1) // 2 + 1)
        b = d3.BallBasis(cs, (na, nt, nr), dtype); edge = b.surface
    else:
        b = d3.ShellBasis(cs, (na, nt, nr), dtype, radii=(1, 2)); edge = b.outer_surface
    sp = {"dim": 3, "spin": [-1, 1, 0], "reg": [-1, 1, 0]}
    return cs, dtype, [((b,), [A, C, {"k": geo, "n": nr}]), ((edge,), [A, C, const]), ((), [const] * 3)], [(cs, sp)], [False, False, True]


def reports(np, dist, f, base):
    """Global element of every coefficient: groups and parts, and a field holding their numbers."""
    lay = dist.coeff_layout
    G = lay.global_group_arrays(f.domain, 1)
    mask = np.ma.getmaskarray(G).any(axis=0)
    return np.ma.getdata(G), mask


def fill(np, dist, f, base):
    dim = int(np.prod([c.dim for c in f.tensorsig], dtype=int))
    gs = f.domain.coeff_shape
    ids = base + np.arange(dim * int(np.prod(gs))).reshape((dim,) + tuple(gs))
    el = dist.coeff_layout.local_elements(f.domain, 1)
    loc = ids[np.ix_(range(dim), *el)]
    f.preset_scales(1); f.preset_layout("c")
    loc = loc.reshape([c.dim for c in f.tensorsig] + list(loc.shape[1:]))
    f.data[...] = loc
    return loc


def ints(np, x):
    x = np.asarray(x)
    r = np.rint(x.real)
    r[np.abs(x - r) > 1e-6] = -5
    return r.astype(int).tolist()


def drive(seed, n, meshes, geos):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    P = comm.size
    rng = random.Random("pencil/%s/%s" % (seed, P))
    traces = []
    while len(traces) < n:
        geo = rng.choice(geos)
        D = DIMS[geo]
        cs, dtype, doms, systems, coupled = config(rng, geo)
        ok = [m for m in meshes if len(m) <= D - 1]
        if not ok:
            continue
        mesh = rng.choice(ok)
        nd = len([x for x in mesh if x > 1])
        if any(coupled[a] and mesh[a] > 1 for a in range(len(mesh))):
            continue
        dist = d3.Distributor(cs, dtype=dtype, mesh=mesh)
        names = [c.name for c in dist.coords]
        nv = rng.choice([1, 2, 2, 3])
        full = rng.random() < .7
        vs, spec, frees = [], [], []
        for i in range(nv):
            while True:
                bases, ax = doms[0] if i == 0 and full else rng.choice(doms)
                free = {a for a in range(D) if not coupled[a] and ax[a]["k"] != "const"}
                # the solver declines problems whose variables have incomparable sets of separate axes
                if all(free <= o or o <= free for o in frees):
                    break
            frees.append(free)
            sig = []
            while len(sig) < 2 and rng.random() < .5 and (geo not in (4,)):
                sig.append(rng.choice(systems))
            v = dist.Field(name="v%d" % i, bases=bases, tensorsig=tuple(s[0] for s in sig))
            vs.append(v); spec.append({"ax": ax, "cs": [s[1] for s in sig]})
        problem = d3.LBVP(vs)
        eqs = []
        for i, v in enumerate(vs):
            seps = [a for a in range(D) if not coupled[a] and spec[i]["ax"][a]["k"] != "const"]
            if seps and rng.random() < .4:
                a = rng.choice(seps)
                k = rng.choice([0, 0, 0, 1, 2])
                op = rng.choice([("==", "!="), ("<=", ">")])
                eqs += [(i, a, (op[0], k)), (i, a, (op[1], k))]
            else:
                eqs.append((i, None, None))
        rng.shuffle(eqs)
        for i, a, z in eqs:
            kw = {} if a is None else {"condition": "n%s %s %d" % (names[a], *z)}
            f = 0
            if rng.random() < .5:
                f = dist.Field(bases=vs[i].domain.bases, tensorsig=vs[i].tensorsig)
            problem.add_equation((vs[i], f), **kw)
        opts = {}
        for k in ("bc_top", "tau_left", "interleave_components"):
            if rng.random() < .5:
                opts[k] = rng.random() < .5
        solver = Bare(problem, matrix_coupling=tuple(coupled), **opts)
        solver.subsystems = subsystems.build_subsystems(solver)
        solver.subproblems = subsystems.build_subproblems(solver, solver.subsystems, ["L"])
        solver.subproblems = [sp for sp in solver.subproblems]
        # numbers
        base, V = 1, []
        ins, outs = [], []
        Vrec, Erec = [], []
        for i, v in enumerate(vs):
            G, mask = reports(np, dist, v, base)
            gs = v.domain.coeff_shape
            dim = int(np.prod([c.dim for c in v.tensorsig], dtype=int))
            comps = list(itertools.product(*[range(1, c.dim + 1) for c in v.tensorsig]))
            el = []
            for c in range(dim):
                for ix in np.ndindex(*gs):
                    parts = [ix[a] % 2 if spec[i]["ax"][a]["k"] in ("rf", "azr") else 0 for a in range(D)]
                    el.append([list(comps[c]), [int(G[(a,) + ix]) for a in range(D)], parts, bool(mask[ix])])
            Vrec.append({"cs": spec[i]["cs"], "ax": spec[i]["ax"], "base": base, "el": el})
            fill(np, dist, v, base); V.append(base)
            base += len(el)
        F = []
        for i, a, z in eqs:
            f = dist.Field(bases=vs[i].domain.bases, tensorsig=vs[i].tensorsig)
            fill(np, dist, f, V[i])
            F.append(f)
            Erec.append({"v": i + 1, "cond": {"ax": 0 if a is None else a + 1, "op": z[0] if z else "", "k": z[1] if z else 0}})
        pens = []
        priv = random.Random(len(traces))      # ranks have different numbers of subproblems
        spare_v = [dist.Field(bases=v.domain.bases, tensorsig=v.tensorsig) for v in vs]
        spare_f = [dist.Field(bases=v.domain.bases, tensorsig=v.tensorsig) for v in F]
        for f in spare_v + spare_f:
            f.preset_layout("c"); f.data[...] = GARBAGE
        def swap(fields):
            """Larger scales in between replace the arrays behind a field."""
            for f, d in [(f, f.data.copy()) for f in fields if priv.random() < .3]:
                f.preset_scales(priv.choice([1.5, 2, 3])); f.preset_layout("g"); f.data[...] = GARBAGE
                if priv.random() < .5:
                    f.preset_scales(1)
                f.preset_layout("c"); f.data[...] = d
        for sp in solver.subproblems:
            swap(vs + F)
            if priv.random() < .5:
                sp.gather_inputs(vs); sp.gather_outputs(F)
                swap(vs + F)
            fresh = lambda: np.zeros(sp.shape, dtype=dtype)
            x = sp.gather_inputs(vs).copy() if priv.random() < .5 else sp.gather_inputs(vs, out=fresh())
            # one equation at a time: which rows are whose
            rows = []
            y = sp.gather_outputs(F).copy()
            owner = np.zeros(sp.shape[0], dtype=int)
            for j, f in enumerate(F):
                keep = [g.data.copy() for g in F]
                for k, g in enumerate(F):
                    g.data[...] = 1 if k == j else 0
                w = sp.gather_outputs(F)
                owner += (j + 1) * np.rint(w.real).astype(int)[:, 0] if w.shape[1] else 0
                for g, d in zip(F, keep):
                    g.data[...] = d
            lx = sp.L_min @ x
            pens.append({"group": [-1 if g is None else int(g) for g in sp.group],
                         "cols": [[-1 if g is None else int(g) for g in ss.group] for ss in sp.subsystems],
                         "inp": ints(np, x), "out": ints(np, y), "owner": owner.tolist(), "lx": ints(np, lx)})
            for _ in range(priv.choice([1, 2])):
                sp.scatter_inputs(x, spare_v)
                sp.scatter_outputs(y, spare_f)
                swap(spare_v + spare_f)
        back = []
        for f, g, b in zip(spare_v + spare_f, list(vs) + F, V + [V[i] for i, _, _ in eqs]):
            back.append([[int(round(float(p.real))), int(round(float(q.real)))] for p, q in zip(g.data.ravel(), f.data.ravel())])
        allp = comm.gather(pens, root=0)
        allb = comm.gather(back, root=0)
        if comm.rank == 0:
            ev = [dict(p, op="pencil", rank=r) for r, ps in enumerate(allp) for p in ps]
            tot = [[x for b in allb for x in b[i]] for i in range(len(allb[0]))]
            ev.append({"op": "end", "vback": tot[:len(vs)], "eback": tot[len(vs):]})
            traces.append({"cfg": {"geo": str(geo), "mesh": list(mesh), "P": P, "dtype": dtype.__name__, "opts": opts},
                           "coupled": [bool(c) for c in coupled], "V": Vrec, "E": Erec, "ev": ev})
        else:
            traces.append(None)
    return [t for t in traces if t]
