"""Records what every process reports about its local part, for random domains (C02)."""


def domains(rng, d3, np, dim_pool, P):
    """A random coordinate system with a family of bases; -> cs, dim, dtype, list of basis tuples."""
    geo = rng.choice(dim_pool)
    cplx = rng.random() < 0.4
    dtype = np.complex128 if cplx else np.float64
    F = d3.ComplexFourier if cplx else d3.RealFourier
    dl = rng.choice([1, 1.5, 2])
    if geo in (2, 3, 4):
        cs = d3.CartesianCoordinates(*["x", "y", "z", "w"][:geo])
        bases = []
        for c in cs.coords:
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10]) if geo < 4 else rng.choice([1, 2, 3, 4])
            k = rng.choice("FFJ")
            if k == "F":
                n += n % 2 if not cplx else 0
                bases.append(F(c, n, bounds=(0, 1), dealias=dl))
            else:
                bases.append(d3.Jacobi(c, n, bounds=(0, 1), a=rng.choice([-.5, 0, .5]), b=-.5, dealias=dl))
        sets = [tuple(bases)]
        for _ in range(2):
            s = tuple(b for b in bases if rng.random() < 0.6)
            sets.append(s)
        return geo, cs, dtype, sets
    if geo == "disk":
        cs = d3.PolarCoordinates("phi", "r")
        m = rng.choice([4, 8, 12]); n = rng.choice([3, 4, 5, 6])
        b = d3.DiskBasis(cs, (m, n), dtype, dealias=dl)
        return geo, cs, dtype, [(b,), (b.S1_basis() if hasattr(b, "S1_basis") else b.edge,), ()]
    if geo == "annulus":
        cs = d3.PolarCoordinates("phi", "r")
        b = d3.AnnulusBasis(cs, (rng.choice([4, 8, 12]), rng.choice([3, 4, 5, 6])), dtype, radii=(1, 2), dealias=dl)
        return geo, cs, dtype, [(b,), (b.outer_edge,), ()]
    if geo == "sphere":
        cs = d3.S2Coordinates("phi", "theta")
        b = d3.SphereBasis(cs, rng.choice([(4, 4), (8, 4), (8, 6), (4, 8)] + [(8, 5) if cplx else (12, 8)] * 3), dtype, dealias=dl)
        return geo, cs, dtype, [(b,), ()]
    if geo == "cylinder":
        cz, cp = d3.Coordinate("z"), d3.PolarCoordinates("phi", "r")
        cs = d3.DirectProduct(cz, cp)
        zb = F(cz, rng.choice([2, 4, 6]), bounds=(0, 1), dealias=dl)
        b = d3.DiskBasis(cp, (rng.choice([4, 8]), rng.choice([3, 4])), dtype, dealias=dl)
        return geo, (cz, cp), dtype, [(zb, b), (b,), (zb,), (zb, b.edge)]
    cs = d3.SphericalCoordinates("phi", "theta", "r")
    shape = rng.choice([(4, 4), (8, 4), (8, 6), (4, 8)] + [(8, 5) if cplx else (12, 8)] * 3) + (rng.choice([3, 4, 5]),)
    if geo == "ball":
        # the highest degrees need radial modes
        shape = shape[:2] + (max(shape[2], (shape[1] + 1) // 2),)
        b = d3.BallBasis(cs, shape, dtype, dealias=dl)
        return geo, cs, dtype, [(b,), (b.surface,), ()]
    b = d3.ShellBasis(cs, shape, dtype, radii=(1, 2), dealias=dl)
    return geo, cs, dtype, [(b,), (b.outer_surface,), ()]


DIMS = {2: 2, 3: 3, 4: 4, "disk": 2, "annulus": 2, "sphere": 2, "cylinder": 3, "ball": 3, "shell": 3}


def match(np, sub, full):
    """Positions in the array full of each value of the array sub (-2: absent)."""
    full = np.asarray(full).ravel(); sub = np.asarray(sub).ravel()
    out = []
    for v in sub:
        w = np.flatnonzero(full == v)
        out.append(int(w[0]) if len(w) == 1 else -2)
    return out


def drive(seed, n, meshes, geos):
    import random
    from ded import np, d3
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    P = comm.size
    rng = random.Random(seed)
    traces = []
    for t in range(n):
        while True:
            geo, cs, dtype, sets = domains(rng, d3, np, geos, P)
            D = DIMS[geo]
            ok = [m for m in meshes if len([x for x in m]) <= D - 1 or (len(m) > D - 1 and all(x == 1 for x in m[D-1:]))]
            if ok:
                break
        mesh = rng.choice(ok)
        dist = d3.Distributor(cs, dtype=dtype, mesh=mesh)
        uni = [x for x in rng.choice([(1,), (1.5,), (2,), (.5,)])] * D
        mix = [rng.choice([.5, 1, 1.5, 2]) for _ in range(D)]
        couplings = [tuple(a >= c for a in range(D)) for c in range(D + 1)]
        if geo in ("sphere", "ball", "shell"):
            couplings += [tuple(a != c for a in range(D)) for c in range(D)]
        mixed = (True, False, True)[:D] if geo in ("sphere", "ball", "shell") and rng.random() < .6 else None
        rng.shuffle(couplings)
        cfg = {"geo": str(geo), "D": D, "mesh": list(mesh), "P": P, "dtype": dtype.__name__}
        ev, nd = [], 0
        for li, lay in enumerate(dist.layouts):
            ev.append({"op": "layout", "grid": [bool(x) for x in lay.grid_space], "local": [bool(x) for x in lay.local], "last": li == len(dist.layouts) - 1})
            for bases in sets:
                dom = d3.Domain(dist, bases) if hasattr(d3, "Domain") else dist.Field(bases=bases).domain
                for scales in ([tuple([1] * D), tuple(uni), tuple(mix)] if any(lay.grid_space) else [tuple([1] * D)]):
                    if geo in ("sphere", "ball", "shell") and .5 in scales and not all(lay.grid_space):
                        continue
                    f = dist.Field(bases=bases)
                    f.preset_scales(scales)
                    f.preset_layout(lay)
                    el = lay.local_elements(dom, scales)
                    sl = lay.slices(dom, scales)
                    rec = {"el": [[int(i) for i in e] for e in el], "shape": [int(i) for i in lay.local_shape(dom, scales)],
                           "sl": [[int(s.start), int(s.stop)] for s in sl], "data": list(f.data.shape),
                           "byrank": [[[int(i) for i in e] for e in lay.local_elements(dom, scales, rank=q)] for q in range(P)],
                           "shrank": [[int(i) for i in lay.local_shape(dom, scales, rank=q)] for q in range(P)],
                           "bc": [[int(i) for i in e] for e in lay.local_elements(dom, scales, broadcast=True)],
                           "grid": [[-1]] * D, "groups": [], "ggroups": [], "axg": [], "gsets": []}
                    if li == len(dist.layouts) - 1:
                        for b in bases:
                            a0 = dist.first_axis(b)
                            sub = scales[a0:a0 + b.dim]
                            loc = dist.local_grids(b, scales=scales)
                            glo = b.global_grids(dist, sub)
                            for k in range(b.dim):
                                shp = [1] * D
                                shp[a0 + k] = loc[k].size
                                rec["grid"][a0 + k] = match(np, loc[k], glo[k]) if list(loc[k].shape) == shp else [-3]
                    elif li == 0:
                        for b in bases:
                            if b.dim == 1:
                                rec["grid"][dist.first_axis(b)] = [int(i) for i in np.ravel(dist.local_modes(b))]
                    gs = [int(x) for x in lay.global_shape(dom, scales)]
                    hasg = not all(lay.grid_space)
                    if hasg:
                        gg = lay.global_group_arrays(dom, scales)
                        lg = lay.local_group_arrays(dom, scales)
                        rec["groups"] = ids(np, lg, gs)
                        ix = np.ix_(*el)
                        rec["ggroups"] = ids(np, gg[(slice(None),) + ix], gs)
                        if scales == tuple([1] * D) and np.prod(gs) <= 400:
                            cpl = couplings[nd % len(couplings)]; nd += 1
                            if mixed is not None and not any(lay.grid_space) and len(bases):
                                cpl = mixed
                            m = np.ma.getmaskarray(lg).any(axis=0)
                            rec["axg"] = [[-99 if mm else int(x) for x, mm in zip(np.ma.getdata(lg[a]).ravel(), m.ravel())] for a in range(D)]
                            num = np.arange(m.size).reshape(m.shape)
                            for q in lay.local_groupsets(cpl, dom, scales):
                                rec["gsets"].append({"q": [-77 if x is None else int(x) for x in q],
                                                     "el": [[int(i) for i in num[tuple(slc)].ravel()] for slc in lay.local_groupset_slices(q, dom, scales)]})
                    ranks = comm.gather(rec, root=0)
                    if comm.rank == 0:
                        pairs = []
                        for a in range(D):
                            b = dom.full_bases[a]
                            pr = (not lay.grid_space[a]) and dtype is np.float64 and b is not None and gs[a] > 1 and (
                                type(b).__name__ == "RealFourier" or (a == dist.first_axis(b) and b.dim > 1))
                            pairs.append(bool(pr))
                        ev.append({"op": "domain", "shape": gs, "scales": [str(s) for s in scales], "const": [b is None for b in dom.full_bases],
                                   "hasgroups": hasg, "pairs": pairs, "bases": [type(b).__name__ for b in bases], "ranks": ranks})
        if comm.rank == 0:
            traces.append({"cfg": cfg, "ev": ev})
    return traces


def ids(np, arr, shape):
    """One integer per element from its group tuple; 0 where any axis is masked."""
    big = 97
    mask = np.ma.getmaskarray(arr).any(axis=0) if np.ma.isMaskedArray(arr) else np.zeros(arr.shape[1:], bool)
    out = np.zeros(arr.shape[1:], dtype=int)
    for a in range(arr.shape[0]):
        out = out * big + (np.ma.getdata(arr[a]).astype(int) + 40)
    out = out % 2000000011
    out = np.where(mask, 0, out + 1)
    return [int(i) for i in out.ravel()]
