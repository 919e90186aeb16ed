"""Drives tensor fields on curvilinear bases through writes, grids, filters and mode-by-mode operators (C25)."""
from fractions import Fraction

KINDS = ["disk", "annulus", "sphere", "shell", "ball", "rshell", "rball"]
SCALES = [(1, 1), (1, 1), (3, 2), (2, 1), (1, 2), (5, 4), (3, 4)]


def drive(seed, n, nev, kinds=KINDS, meshes=((None,))):
    import random
    from ded import np, d3
    from mpi4py import MPI
    from dedalus.core import basis as B, operators
    from dedalus.tools.config import config
    import xform
    from field_drive import gather_global
    rng = random.Random(seed)
    size = MPI.COMM_WORLD.size
    traces = []
    while len(traces) < n:
        kind = rng.choice(kinds)
        real = rng.random() < .6
        dt = np.float64 if real else np.complex128
        two = kind in ("disk", "annulus", "sphere")
        rank = rng.choice([0, 1, 1, 2, 2, 3] if two else [0, 1, 1, 2])
        mesh = rng.choice(meshes)
        if mesh is not None and len(mesh) > (1 if two else 2):
            mesh = (size,)
        if mesh is not None and two:
            mesh = (size,)
        nphi = rng.choice([4, 8, 8, 12] if real else [2, 4, 6, 8, 10])
        if rng.random() < .1:
            nphi = 1
        nr = rng.choice([2, 3, 4, 5, 6])
        nth = rng.choice([3, 4, 5, 6])
        shape = (nphi, nth) if kind == "sphere" else (nphi, nr) if two else (nphi, nth, nr)
        if rank == 2 and not two:
            shape = (min(nphi, 4), min(nth, 4), min(nr, 4))
        if rank == 3:
            shape = (min(nphi, 8),) + shape[1:]
        lmax = max(0, nth - 2) if real else nth - 1
        if kind == "ball" and lmax // 2 > shape[2] - 1:
            continue  # degrees without radial modes: unsupported throughout
        if kind == "disk" and (shape[0] // 2 - real) // 2 > shape[1] - 1:
            continue
        k = rng.choice([0, 0, 1, 2, 3])
        radial = kind != "sphere"
        jac = kind in ("annulus", "shell", "rshell")
        alpha = rng.choice([None, None, (0, 0), (.5, -.5)]) if jac else rng.choice([None, None, 1])
        az = rng.choice([None] + [x for x in (B.RealFourier if real else B.ComplexFourier).transforms])
        rl = rng.choice([None] + [x for x in B.Jacobi.transforms if alpha is None or x == "matrix"]) if jac else rng.choice([None, "matrix"])
        early = rng.random() < .3
        kw = {"dtype": dt}
        if kind == "sphere":
            k = 0
            kw.update(radius=rng.choice([1, 2]))
        else:
            kw.update(k=k)
            if alpha is not None:
                kw.update(alpha=alpha)
            kw.update(radii=(1, 3)) if jac else kw.update(radius=rng.choice([1, 2]))
        if not (kind[0] == "r"):
            kw.update(azimuth_library=az)
        kw.update(**({"colatitude_library": rng.choice([None, "matrix"])} if kind in ("sphere", "shell", "ball") else {}))
        if radial:
            kw.update(radius_library=rl)
        tens = "polar" if kind in ("disk", "annulus") else "s2" if kind == "sphere" else "sph"
        config["transforms"]["DEALIAS_BEFORE_CONVERTING"] = str(early)
        cs = {"polar": d3.PolarCoordinates, "s2": d3.S2Coordinates, "sph": d3.SphericalCoordinates}[tens](*["phi", "theta", "r"][:2 if two else 3])
        outer = cs
        if kind == "sphere" and rng.random() < .4:
            outer = d3.SphericalCoordinates("phi", "theta", "r")
            tens = "sph"
            rank = min(rank, 2)
        try:
            dist = d3.Distributor(outer, dtype=dt, mesh=mesh)
            if kind[0] == "r":
                kw.pop("colatitude_library", None)
                basis = (d3.ShellBasis if kind == "rshell" else d3.BallBasis)(cs, shape, **kw).radial_basis
            else:
                basis = {"disk": d3.DiskBasis, "annulus": d3.AnnulusBasis, "sphere": d3.SphereBasis, "shell": d3.ShellBasis, "ball": d3.BallBasis}[kind](outer, shape, **kw)
            f = dist.TensorField((outer,) * rank, bases=basis) if rank else dist.Field(bases=basis)
        except NotImplementedError:
            continue
        C = xform.Curv(kind, shape, real, (tens,) * rank, k, alpha, radii=(1, 3))
        dom = f.domain
        lay = dist.coeff_layout
        G = np.ma.masked_array(lay.global_group_arrays(dom, scales=1))
        M = np.ma.getmaskarray(G).any(axis=0)
        cshape = tuple(lay.global_shape(dom, scales=1))
        # drop the axes the field is constant along (spheres among spherical coordinates)
        axes = 2 if two else 3
        modes, where = [], {}
        for idx in np.ndindex(*[len(xform.SPINS[tens])] * rank, *cshape):
            p = idx[rank:]
            if M[p]:
                continue
            g = [int(x) for x in np.asarray(G[(slice(None),) + p])]
            comp = tuple(xform.SPINS[tens][i] for i in idx[:rank])
            q = (comp, g[0], g[1] if axes == 3 or kind == "sphere" else 0, 0 if kind == "sphere" else g[axes - 1])
            if q not in where:
                where[q] = []
                modes.append(q)
            where[q].append(idx)
        if size > 1 and len(modes) > 1500:
            continue
        pos = [{"c": list(q[0]), "m": q[1], "l": q[2], "n": q[3]} for q in modes]
        inv = {q: i + 1 for i, q in enumerate(modes)}
        reg = C.regs
        mate = [inv[q] if reg else inv[(tuple(-s for s in q[0]),) + q[1:]] for q in modes]
        N = list(shape)
        cfg = {"kind": kind, "real": real, "N": N, "pos": pos, "mate": mate, "rank": rank, "k": k, "tens": tens,
               "mesh": list(mesh or []), "libs": [str(az), str(rl)], "alpha": str(alpha), "early": early}

        def flat(amps):
            """integers of complex amplitudes by mode"""
            out, ok = [], True
            for q in modes:
                v = complex(amps.get(q, 0))
                for x in (v.real, v.imag):
                    ok = ok and abs(x - round(x)) < 1e-6 if np.isfinite(x) else False
                    out.append(int(round(x)) if np.isfinite(x) and abs(x) < 1e6 else -99999)
            return out, ok

        def read_c(fld):
            fld.change_layout("c")
            data, once = gather_global(dist.comm, np, fld.data, lay.local_elements(dom, 1), (len(xform.SPINS[tens]),) * rank + cshape, dt)
            if data is None:
                return None, None, 0
            amps = {}
            used = np.zeros(data.shape, dtype=bool)
            for q, places in where.items():
                v = 0
                for idx in places:
                    used[idx] = True
                    v = v + (data[idx] * (1j if real and idx[rank] % 2 else 1))
                amps[q] = v
            junk = int(np.sum(~(np.abs(data[~used]) < 1e-9)))
            o, ok = flat(amps)
            return o, ok and once, junk

        def gshape(sc):
            gs = [-((-a * s) // b) for (a, b), s in zip(sc, shape)]
            if kind[0] == "r":
                gs[:2] = 1, 1
            if nphi <= 2:
                gs[0] = 1
            return gs

        def put(glob, layout, scales):
            f.preset_layout(layout)
            el = f.layout.local_elements(dom, f.scales)
            f.data[...] = glob[np.ix_(*[np.arange(len(xform.SPINS[tens]))] * rank, *el)]

        def pick_scales():
            return [rng.choice(SCALES) for _ in shape]

        def full(sc):
            return tuple(float(Fraction(*s)) for s in sc) + (1,) * (dist.dim - len(sc))

        def sparse(density):
            amps = {}
            for q in modes:
                if rng.random() < density:
                    amps[q] = complex(2 * rng.randint(-40, 40), 2 * rng.randint(-40, 40))
            return amps
        mask = lay.valid_elements(f.tensorsig, dom, 1) if size == 1 and kind[0] != "r" else None
        events = []
        if mask is not None:
            mk = []
            for q in modes:
                a = [0, 0]
                for idx in where[q]:
                    a[idx[rank] % 2 if real else 0] = int(mask[idx])
                mk += a
            events.append({"op": "valid", "mask": mk, "none": kind in ("shell", "ball") or bool(not np.any(mask[..., M] if mask.ndim == rank + M.ndim else mask[M]))})
        clean = False
        raw = False  # grid data with unresolved modes that was not taken through coefficient space yet
        for e in range(nev):
            op = rng.choice(["read_g", "read_g", "read_c", "write_c", "write_g", "low", "high", "ell"]) if e else rng.choice(["write_c", "write_g"])
            if op == "ell" and (not clean or kind in ("disk", "annulus") or kind[0] == "r"):
                op = "read_g"
            if kind[0] == "r" and op == "ell":
                op = "read_c"
            sc = pick_scales()
            gs = gshape(sc)
            ev = {"op": op}
            if op == "write_c":
                amps = sparse(rng.choice([.1, 1]))
                glob = np.zeros((len(xform.SPINS[tens]),) * rank + cshape, dtype=dt)
                junk = rng.random() < .5
                if junk:
                    for idx in np.ndindex(*glob.shape):
                        if M[idx[rank:]]:
                            glob[idx] = rng.randint(1, 9)
                for q, places in where.items():
                    for idx in places:
                        v = complex(amps.get(q, 0))
                        glob[idx] = (v.imag if idx[rank] % 2 else v.real) if real else v
                put(glob, "c", None)
                ev["v"] = flat(amps)[0]
                clean = False
            elif op == "write_g":
                amps = sparse(rng.choice([.1, 1]))
                amps = {q: v for q, v in amps.items() if C.kept(*q, gs)}
                ext = {}
                if k == 0:
                    big = xform.Curv(kind, (10 * gs[0] if nphi > 1 else 1,) + tuple(g + 1 if real and kind in ("sphere", "shell", "ball") and i == 0 else g for i, g in enumerate(gs[1:])), real, (tens,) * rank, k, alpha, radii=(1, 3))
                    for _ in range(60):
                        m = rng.randint(0, (gs[0] - 1) // 2) * (1 if real else rng.choice([-1, 1])) if nphi > 1 and kind[0] != "r" else 0
                        l = rng.randint(0, gs[1]) if not two or kind == "sphere" else 0
                        if kind[0] == "r":
                            l = 0
                        q = (rng.choice(C.comps), m, l, rng.randint(0, gs[-1]) if kind != "sphere" else 0)
                        if big.kept(*q, gs) and q not in inv:
                            ext[q] = complex(rng.randint(-40, 40), rng.randint(-40, 40))
                f.preset_scales(full(sc))
                glob = C.synth({**amps, **ext}, gs)
                if dist.dim > len(gs):
                    glob = glob[..., None]
                put(glob, "g", sc)
                ev.update(v=flat(amps)[0], g=gs, extra=len(ext))
                clean = True
            elif op == "read_g":
                if raw:  # rescaling only passes the rescaled axes through coefficient space
                    f.require_coeff_space()
                f.change_scales(full(sc))
                f.change_layout("g")
                gsh = tuple(int(x) for x in f.layout.global_shape(dom, f.scales))
                data, once = gather_global(dist.comm, np, f.data, f.layout.local_elements(dom, f.scales), (len(xform.SPINS[tens]),) * rank + gsh, dt)
                if data is not None:
                    data = data.reshape(data.shape[:rank] + gsh[:axes])
                    amps, res = C.analyze(data, modes, gsh[:axes]) if list(gsh[:axes]) == gs else ({}, np.inf)
                    o, ok = flat(amps)
                    ev.update(obs=o, exact=bool(ok and once and res < 1e-7 * max(1, np.max(np.abs(data), initial=0))), g=list(gsh[:axes]), asked=gs)
                clean = True
            elif op == "read_c":
                o, ok, junk = read_c(f)
                ev.update(obs=o, exact=ok, junk=junk)
            elif op in ("low", "high"):
                getattr(f, op + "_pass_filter")(scales=full(sc))
                ev["g"] = gs
                clean = clean or op == "low"
            elif op == "ell":
                tab = [rng.randint(-3, 5) for _ in range(nth + 4)]
                if kind == "sphere":
                    res = operators.SphereEllProduct(f, outer, lambda l, r: np.where(l < len(tab), np.array(tab)[np.minimum(np.ma.filled(l, 0), len(tab) - 1)], 0)).evaluate()
                else:
                    res = d3.SphericalEllProduct(f, outer, lambda l: tab[l]).evaluate()
                o, ok, junk = read_c(res)
                ev.update(obs=o, exact=ok, f=tab)
            raw = op == "write_g" and bool(ev["extra"])
            events.append(ev)
        config["transforms"]["DEALIAS_BEFORE_CONVERTING"] = "False"
        if dist.comm.rank == 0:
            traces.append({"cfg": cfg, "ev": events})
        else:
            traces.append(None)
    return traces if MPI.COMM_WORLD.rank == 0 else []
