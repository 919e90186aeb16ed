"""Visits of output sets by any number of processes, and merges of virtual sets, described event by event (C09)."""
import os, pathlib, random, shutil
from ded import np, d3
import h5py
from dedalus.tools import post
from dedalus.core.evaluator import H5VirtualFileHandler
from output_drive import World, polys, vector
TEXTS = ["", "_a", "_s", "b", "snap"]


def value(x):
    a = np.asarray(x)
    if a.dtype.kind in "SOUT":
        return [str(v) for v in a.ravel()]
    return [int(v) if np.isfinite(v) and abs(v) < 2e9 else -2**30 for z in np.round(a.ravel().astype(complex) * 1e4) for v in (z.real, z.imag)]


def digest(path):
    """All a reader of an output file sees."""
    with h5py.File(path, "r") as f:
        out = {"attrs": [[k, value(f.attrs[k])] for k in sorted(f.attrs)], "scales": [[k, value(f["scales"][k][()])] for k in sorted(f["scales"])], "tasks": []}
        for k in sorted(f["tasks"]):
            d = f["tasks"][k]
            out["tasks"].append({"name": k, "shape": list(d.shape), "dtype": str(d.dtype), "data": value(d[()]), "labels": [x.label for x in d.dims],
                                 "dims": [[[n, s.name.split("/")[-1]] for n, s in x.items()] for x in d.dims],
                                 "attrs": [[a, value(d.attrs[a])] for a in sorted(d.attrs) if a not in ("DIMENSION_LIST", "DIMENSION_LABELS", "REFERENCE_LIST", "CLASS", "NAME")]})
    return out


def virtual(path):
    with h5py.File(path, "r") as f:
        return [bool(f["tasks"][k].is_virtual) for k in sorted(f["tasks"])]


def visits(rng, comm, path):
    """Sets with random names and numbers of writes; who visits what."""
    n = rng.randint(1, 6)
    toks = set()
    pattern = rng.choice([1, 2])
    while len(toks) < n:
        toks.add(tuple(rng.choice(x) for x in ([[1, 4], range(1, 14)] if pattern == 1 else [[1, 3, 4], [1, 2, 9, 10, 11, 100], [2, 4], range(8, 12)])))
    toks = sorted(toks)
    rng.shuffle(toks)
    files = []
    for t in toks:
        w = rng.choice([0, 0, 1, 1, 2, 3, 5, 10])
        name = "".join(TEXTS[x] if i % 2 == 0 else str(x) for i, x in enumerate(t)) + ".h5"
        files.append([list(t), w, name])
    d = pathlib.Path(path)
    if comm.rank == 0:
        d.mkdir(parents=True)
        for t, w, name in files:
            with h5py.File(str(d / name), "w") as f:
                f.attrs["writes"] = w
    comm.Barrier()
    order = [d / name for t, w, name in files]
    kind = rng.randrange(3)
    arg = [str(p) for p in order] if kind == 0 else iter(order) if kind == 1 else tuple(order)
    index = {str(p): i + 1 for i, p in enumerate(order)}
    got = []

    def f(p, start, count, **kw):
        got.append([index[str(p)], int(start), int(count), kw.get("tag", 0)])
    post.visit_writes(arg, f, tag=7)
    counts = [int(w) for w in post.get_all_writes([str(p) for p in order])]
    got = comm.gather(got, root=0)
    ev = [{"op": "visit", "files": [{"name": t, "writes": w} for t, w, _ in files], "visits": got or [], "counts": counts}]
    return ev


def names(rng, comm, path):
    """Sets of a handler handed to workers."""
    stem = rng.choice(["snap", "out_s", "r1"])
    d = pathlib.Path(path) / stem
    sets = rng.sample(range(1, 13), rng.randint(1, 9))
    if comm.rank == 0:
        d.mkdir(parents=True)
        for s in sets:
            (d / ("%s_s%d" % (stem, s))).mkdir()
            (d / ("%s_s%d.h5" % (stem, s))).touch()
        (d / "other.h5").touch()
    comm.Barrier()
    ev = []
    for dist in (False, True):
        got = [p.stem.split("_s")[-1] for p in post.get_assigned_sets(d if rng.random() < .5 else str(d), distributed=dist)]
        got = comm.gather([int(x) for x in got], root=0)
        ev.append({"op": "sets", "sets": sets, "got": got or []})
    return ev


def merges(rng, comm, path, meshes, geos):
    """Outputs of a real run, merged."""
    geo = rng.choice(geos)
    dtype = rng.choice([np.float64, np.complex128])
    ok = [m for m in meshes if len(m) <= {"box1": 0, "box2": 1, "box3": 2, "ball": 2, "shell": 2}.get(geo, 1)] or ([[]] if comm.size == 1 else [])
    if not ok:
        return []
    W = World(rng, geo, dtype, rng.choice(ok))
    f = W.dist.Field(name="f", bases=W.bases)
    V = W.dist.Field(name="V", bases=W.bases, tensorsig=(W.cs,))
    c = W.dist.Field(name="c")
    P = d3.IVP([f, V, c])
    for x in (f, V, c):
        P.add_equation((d3.TimeDerivative(x), 0))
    solver = P.build_solver("RK111")
    base = os.path.join(path, rng.choice(["snap", "o_s2", "x.y"]))
    mw = rng.choice([None, 1, 2, 3])
    H = solver.evaluator.add_file_handler(base, parallel="virtual", max_writes=mw)
    for k in range(rng.randint(1, 4)):
        H.add_task(rng.choice([f, V, c, 2*f]), layout=rng.choice(["g", "c"]), name=rng.choice(["t%d", "task %d"]) % k, scales=rng.choice([1, 1.5, 2]))
    for k in range(rng.randint(1, 5)):
        W.fill(f, [polys(rng, W.axes)])
        W.fill(V, vector(rng, W.axes))
        c["g"] = rng.choice([1, 2, -3])
        solver.iteration += 1
        solver.sim_time += .5
        solver.evaluate_handlers([H], dt=.5)
    comm.Barrier()
    how = rng.choice(["virtual", "distributed", "one", "tasks"])
    cleanup = rng.random() < .5
    folder, stem = H.base_path, H.base_path.stem
    sets = list(range(1, H.set_num + 1))
    file = lambda s: str(folder / ("%s_s%d.h5" % (stem, s)))
    ev = []
    if comm.rank == 0:
        before = [digest(file(s)) for s in sets]
    comm.Barrier()
    merged = sets
    if how == "virtual":
        post.merge_virtual_analysis(str(folder), **({"cleanup": True} if cleanup else {}))
    elif how == "distributed":
        post.merge_analysis(folder, **({"cleanup": True} if cleanup else {}))
    else:
        merged = [rng.choice(sets)]
        if comm.rank == 0 and how == "one":
            post.merge_virtual_file(file(merged[0]), **({"cleanup": True} if cleanup else {}))
        if comm.rank == 0 and how == "tasks":
            cleanup = False
            with h5py.File(file(merged[0]), "r+") as g:
                for k in list(g["tasks"]):
                    H5VirtualFileHandler.merge_task(g, k, overwrite=True)
    comm.Barrier()
    if comm.rank == 0:
        cleanup = cleanup and how != "tasks"
        parts = [(folder / ("%s_s%d" % (stem, s))).is_dir() for s in sets]
        others = sorted(p.name for p in folder.iterdir() if p.name not in [os.path.basename(file(s)) for s in sets] + ["%s_s%d" % (stem, s) for s in sets])
        for s in merged:  # a merged set stands on its own
            shutil.rmtree(folder / ("%s_s%d" % (stem, s)), ignore_errors=True)
        for i, s in enumerate(sets):
            ev.append({"op": "merge", "how": how, "merged": s in merged, "cleanup": cleanup, "before": before[i], "after": digest(file(s)), "virtual": virtual(file(s)), "parts": parts[i], "others": others})
    return ev


def drive(seed, n, meshes, geos, path, k=4):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rng = random.Random("post/%s/%s" % (seed, comm.size))
    out = []
    for t in range(n):
        d = os.path.join(path, "p%d_%d" % (comm.size, t))
        if comm.rank == 0:
            os.makedirs(d, exist_ok=True)
        comm.Barrier()
        ev = merges(rng, comm, d + "/m", meshes, geos)
        for i in range(k):
            ev = ev + visits(rng, comm, d + "/v%d" % i)
        ev = ev + names(rng, comm, d + "/n")
        comm.Barrier()
        if comm.rank == 0:
            shutil.rmtree(d, ignore_errors=True)
            out.append({"cfg": {"P": comm.size}, "ev": ev})
    return out
