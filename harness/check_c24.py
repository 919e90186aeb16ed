"""C24: seeded random fields (spec/RandArr.tla)."""
LEVEL = "model_checking"
DISTS = [("uniform", {}), ("standard_normal", {}), ("normal", {"loc": 2.0, "scale": 3.0}), ("uniform", {"low": -5, "high": 7}), ("exponential", {}),
         ("triangular", {"left": 0, "mode": 1, "right": 3}), ("integers", {"low": 0, "high": 2 ** 62})]


def stream(np, seed, dist, kw, n):
    return getattr(np.random.default_rng(seed), dist)(size=n, **kw)


def positions(np, ref, data):
    order = np.argsort(ref)
    r = ref[order]
    d = np.asarray(data).ravel()
    i = np.clip(np.searchsorted(r, d), 0, len(r) - 1)
    return [int(order[k]) if r[k] == v else -1 for k, v in zip(i, d)]


def drive_arrays(seed, n):
    import random
    import numpy as np
    from dedalus.tools.random_arrays import ChunkedRandomArray
    rng = random.Random(seed)
    traces = []
    for _ in range(n):
        shape = [rng.choice([1, 2, 3, 4, 5]) for _ in range(rng.randint(1, 4))]
        total = int(np.prod(shape))
        name, kw = rng.choice(DISTS)
        sd = rng.randrange(1000)
        ref = stream(np, sd, name, kw, total)
        A = ChunkedRandomArray(tuple(shape), seed=sd, chunk_size=rng.choice([1, 2, 3, 7, 10, 64, 2 ** 20]), distribution=name, **kw)
        ev = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.3:
                A = ChunkedRandomArray(tuple(shape), seed=sd, chunk_size=rng.choice([1, 2, 5, 11, 2 ** 20]), distribution=name, **kw)
            k = rng.randint(1, len(shape))
            sl = []
            for a in range(k):
                e = shape[a]
                st = rng.choice([999, 999, 1, 2, -1])
                sl.append([rng.choice([999, 999, 0, 1, rng.randrange(-e, e + 2)]), rng.choice([999, 999, e, rng.randrange(-e, e + 2)]), st])
            # the class is "mgrid-like": inverted bounds are refused, as mgrid does
            sl = [s if (lambda b: (b[1] - b[0]) * b[2] >= 0)(slice(*[None if x == 999 else x for x in s]).indices(e)) else [999, 999, s[2]] for s, e in zip(sl, shape)]
            key = tuple(slice(*[None if x == 999 else x for x in s]) for s in sl)
            if k == 1 and rng.random() < 0.5:
                key = key[0]
            got = A[key]
            ev.append({"op": "get", "shape": shape, "slices": sl, "outshape": [int(x) for x in got.shape], "got": positions(np, ref, got)})
        other = ChunkedRandomArray(tuple(shape), seed=sd + rng.randint(1, 5), distribution=name, **kw)[tuple(slice(None) for _ in shape)]
        ev.append({"op": "other", "common": sum(1 for p in positions(np, ref, other) if p >= 0)})
        traces.append({"cfg": {"what": "array", "dist": name, "seed": sd}, "ev": ev})
    return traces


def drive_fields(seed, n, meshes, geos):
    import random
    from ded import np, d3
    from mpi4py import MPI
    from partition_drive import domains, DIMS
    comm = MPI.COMM_WORLD
    rng = random.Random(seed)
    traces = []
    for t in range(n):
        while True:
            geo, cs, dtype, sets = domains(rng, d3, np, geos, comm.size)
            D = DIMS[geo]
            ok = [m for m in meshes if len(m) <= D - 1]
            if ok:
                break
        mesh = rng.choice(ok)
        dist = d3.Distributor(cs, dtype=dtype, mesh=mesh)
        ev = []
        name, kw = rng.choice(DISTS[:6])
        sd = rng.randrange(1000)
        cplx = dtype is np.complex128
        vec = cs[-1] if isinstance(cs, tuple) else cs
        for _ in range(3):
            bases = rng.choice(sets)
            rank = rng.choice([0, 0, 1, 2]) if geo not in (4,) else rng.choice([0, 1])
            ts = (vec,) * rank
            f = dist.TensorField(ts, bases=bases) if rank else dist.Field(bases=bases)
            sc = rng.choice([None, None, 1, 1.5, 2])
            lay = rng.choice([None, "c", "g", rng.randrange(len(dist.layouts))])
            if geo in ("sphere", "ball", "shell", "disk", "annulus", "cylinder") and not isinstance(lay, str):
                lay = rng.choice("cg")
            pre = rng.choice(["c", "g"])
            f.change_layout(pre)
            f.fill_random(layout=dist.layouts[lay] if isinstance(lay, int) else lay, scales=sc, seed=sd, distribution=name,
                          chunk_size=rng.choice([3, 17, 1000, 2 ** 20]), **kw)
            want_lay = {"c": dist.coeff_layout, "g": dist.grid_layout}.get(lay) if isinstance(lay, str) else dist.layouts[lay] if isinstance(lay, int) else \
                {"c": dist.coeff_layout, "g": dist.grid_layout}[pre]
            placed = f.layout is want_lay and all(abs(a - b) < 1e-12 for a, b in zip(f.scales, (sc or 1,) * D))
            gs = [int(x) for x in f.layout.global_shape(f.domain, f.scales)]
            comps = [c.dim for c in ts]
            total = int(np.prod(comps + gs)) * (2 if cplx else 1)
            ref = stream(np, sd, name, kw, total)
            data = np.stack([f.data.real, f.data.imag], axis=-1) if cplx else f.data
            rec = {"el": [[int(i) for i in e] for e in f.layout.local_elements(f.domain, f.scales)], "got": positions(np, ref, data), "placed": bool(placed)}
            ranks = comm.gather(rec, root=0)
            if comm.rank == 0:
                ev.append({"op": "fill", "shape": gs, "comps": comps, "complex": cplx, "ranks": ranks})
        if comm.rank == 0:
            traces.append({"cfg": {"what": "field", "geo": str(geo), "mesh": list(mesh), "dist": name}, "ev": ev})
    return traces


def corrupt(ts):
    for t in ts:
        for e in t["ev"]:
            if e["op"] == "fill" and len(e["ranks"]) > 1 and len(e["ranks"][0]["got"]) > 1:
                g = e["ranks"][0]["got"]
                g[0], g[1] = g[1], g[0]
                return [t]
    raise AssertionError


def run(ck):
    ck.design("RandArrMC", workers=4)
    traces = [t for r in ck.parallel("check_c24", "drive_arrays", [dict(seed=ck.seed * 100 + j, n=ck.pick(60, 600)) for j in range(4)], what="random arrays") for t in r]
    geos = [2, 3, 4, "disk", "annulus", "sphere", "cylinder", "ball", "shell"]
    runs = ck.pick([(1, 15), (4, 12), (6, 8)], [(1, 60), (2, 50), (3, 50), (4, 80), (5, 40), (6, 50), (8, 50)])
    M = {1: [[1]], 2: [[2]], 3: [[3]], 4: [[4], [2, 2]], 5: [[5]], 6: [[6], [2, 3], [3, 2]], 8: [[8], [2, 4], [2, 2, 2]]}
    for i, (p, n) in enumerate(runs):
        traces += ck.mpi_call(p, "check_c24", "drive_fields", seed=ck.seed * 50 + i, n=n, meshes=M[p], geos=geos, timeout=600)[0]
        ck.count("ranks_%d" % p, n)
    ck.validate("RandArrTrace", traces, negative=corrupt, workers=8)
