"""C06: file output numbering across sessions and crashes (spec/FileOutput.tla)."""
import contextlib, gc, os, re, shutil, tempfile
LEVEL = "model_checking"


class Crash(Exception):
    pass


@contextlib.contextmanager
def crash_after(h5py, n):
    """Raise at the n-th call that changes a file (fault injection at the h5py interface)."""
    left = [n]
    saved = []

    def wrap(cls, name):
        f = cls.__dict__[name]

        def g(self, *a, **k):
            left[0] -= 1
            if left[0] < 0:
                raise Crash
            return f(self, *a, **k)
        saved.append((cls, name, f))
        setattr(cls, name, g)
    for cls, name in ((h5py.Dataset, "resize"), (h5py.Dataset, "__setitem__"), (h5py.Group, "create_dataset"), (h5py.Group, "create_group"),
                      (h5py.AttributeManager, "__setitem__")):
        wrap(cls, name)
    try:
        yield
    finally:
        for cls, name, f in saved:
            setattr(cls, name, f)


STEMS = ["out", "snap_Ra1.5_Pr0.7", "a[1]", "b+c", "s1", "x_s2", "run.h5", "Out (2)"]


def drive(seed, n, nev, crashes=True, scratch=None):
    import random, time
    from ded import np, d3
    import h5py
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rng = random.Random(seed)
    root = comm.bcast(tempfile.mkdtemp(prefix="c06_", dir=scratch) if comm.rank == 0 else None)
    traces = []
    coords = d3.CartesianCoordinates('x', 'y')
    dist = d3.Distributor(coords, dtype=np.float64, mesh=[comm.size])
    bases = (d3.RealFourier(coords['x'], size=4, bounds=(0, 1)), d3.RealFourier(coords['y'], size=2, bounds=(0, 1)))
    u = dist.Field(name='u', bases=bases)
    w = dist.Field(name='w', bases=bases[1])
    problem = d3.IVP([u, w])
    problem.add_equation((d3.dt(u), 0))
    problem.add_equation((d3.dt(w), 0))
    for k in range(n):
        solver = problem.build_solver(d3.RK111)
        stem = rng.choice(STEMS) if k % 2 else "out"
        base = os.path.join(root, "d%d" % k, stem)
        name = os.path.splitext(stem)[0]
        others = {}
        if rng.random() < 0.6 and comm.rank == 0:
            os.makedirs(base)
            for fn in (name + "_special.h5", name + "_s1_notes.txt", "my" + name + "_s1.h5", name + "_s", name + "_s1.h5.bak", name + "_sets/x", "tmp_" + name + "_s3.h5"):
                p = os.path.join(base, fn)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                others[p] = fn + "!"
                with open(p, "w") as f:
                    f.write(others[p])

        def disk():
            """(complete records of the handler's sets, other files intact, metadata consistent)"""
            if comm.rank:
                return None
            sets, meta = [], True
            for fn in sorted(os.listdir(base)) if os.path.isdir(base) else []:
                p = os.path.join(base, fn)
                m = re.fullmatch(re.escape(name) + r"_s(\d+)\.h5", fn)
                if m:
                    s = int(m.group(1))
                    recs = []
                    with h5py.File(p, "r") as f:
                        try:
                            sc = {a: f["scales"][b][:] for a, b in (("wn", "write_number"), ("it", "iteration"), ("t", "sim_time"), ("dt", "timestep"), ("w", "wall_time"))}
                            ta = [f["tasks"][x][:] for x in ("u", "2u", "w")]
                        except KeyError:
                            sc, ta = {"wn": []}, []
                        nr = min([len(x) for x in sc.values()] + [len(x) for x in ta])
                        for i in range(nr):
                            vs = set(np.unique(ta[0][i])) | set(np.unique(ta[1][i] / 2)) | set(np.unique(ta[2][i]))
                            r = {a: int(round(float(sc[a][i]))) for a in ("wn", "it", "t", "dt")}
                            if 0 in r.values() or 0 in vs:
                                continue  # not a complete record
                            if len(vs) != 1:
                                v = -1
                            else:
                                v = int(vs.pop())
                            r["v"] = v
                            recs.append(r)
                            if abs(sc["w"][i] - r["it"] / 4) > 1e-12:
                                meta = False
                        if not crashed[0]:
                            meta = meta and int(f.attrs["set_number"]) == s and f.attrs["handler_name"] == name and int(f.attrs["writes"]) == len(recs) == nr
                    sets.append({"set": s, "recs": recs})
                elif p in others or os.path.isdir(p):
                    continue
                else:
                    meta = False
            ok = all(os.path.exists(p) and open(p).read() == c for p, c in others.items())
            return sorted(sets, key=lambda x: x["set"]), ok, meta

        evs, h, v, it, t = [], None, 0, 0, 0
        crashed = [False]
        last = []
        for e in range(nev):
            old = comm.bcast([x["set"] for i, x in enumerate(last) if any(y["recs"] for y in last[i+1:])] if comm.rank == 0 else None)
            if h is None and old and rng.random() < .25:
                # the user moves an earlier set away between sessions
                gone = rng.choice(old)
                if comm.rank == 0:
                    os.remove(os.path.join(base, "%s_s%d.h5" % (name, gone)))
                    shutil.rmtree(os.path.join(base, "%s_s%d" % (name, gone)), ignore_errors=True)
                ev = {"op": "remove", "set": gone}
            elif h is None:
                mode = rng.choice(["append", "append", "overwrite"]) if e else rng.choice(["append", "overwrite"])
                mw = rng.choice([0, 1, 2, 3, 4])
                par = rng.choice(["gather", "virtual"])
                h = solver.evaluator.add_file_handler(base, max_writes=mw or None, mode=mode, parallel=par, iter=1)
                h.add_task(u, name="u")
                h.add_task(2 * u, name="2u", layout=rng.choice("gc") if False else "g")
                h.add_task(w, name="w", scales=rng.choice([1, 2]))
                if mode == "overwrite":
                    crashed[0] = False
                ev = {"op": "open", "mode": mode, "mw": mw}
            elif rng.random() < 0.15:
                solver.evaluator.handlers.remove(h)
                h = None
                gc.collect()
                ev = {"op": "end"}
            else:
                v += 1; it += rng.randint(1, 3); t += rng.randint(1, 5)
                dt = rng.randint(1, 9)
                rec = {"it": it, "t": t, "dt": dt, "v": v}
                u.preset_scales(1); w.preset_scales(1)
                u["g"] = v
                w["g"] = v
                kw = dict(iteration=it, sim_time=float(t), timestep=float(dt), wall_time=it / 4)
                if crashes and rng.random() < 0.12:
                    ev = {"op": "crash", "rec": rec}
                    try:
                        with crash_after(h5py, rng.choice([rng.randint(0, 8), rng.randint(0, 45)])):
                            solver.evaluator.evaluate_handlers([h], **kw)
                        ev["op"] = "write"
                    except Crash:
                        crashed[0] = True
                        solver.evaluator.handlers.remove(h)
                        h = None
                    gc.collect()
                else:
                    ev = {"op": "write", "rec": rec}
                    solver.evaluator.evaluate_handlers([h], **kw)
            comm.Barrier()
            d = disk()
            if comm.rank == 0:
                ev["disk"], ev["others"], ev["meta"] = d
                last = d[0]
            comm.Barrier()
            evs.append(ev)
        if comm.rank == 0:
            shutil.rmtree(os.path.join(root, "d%d" % k))
        traces.append({"cfg": {"stem": stem, "ranks": comm.size}, "ev": evs})
    comm.Barrier()
    if comm.rank == 0:
        shutil.rmtree(root)
    return traces if comm.rank == 0 else None


def run(ck):
    ck.design("FileOutputMC")
    with ck.driving("writing outputs"):
        traces = drive(ck.seed, ck.pick(40, 400), ck.pick(30, 60), scratch=ck.scratch)
    for n in ck.pick([3], [2, 3, 5]):
        traces += ck.mpi_call(n, "check_c06", "drive", seed=ck.seed + n, n=ck.pick(8, 40), nev=ck.pick(20, 50), crashes=False, scratch=ck.scratch)[0]
    ops = [e["op"] for t in traces for e in t["ev"]]
    for o in set(ops):
        ck.count("op_" + o, ops.count(o))

    def corrupt(ts):
        for e in reversed(ts[0]["ev"]):
            if e["op"] == "write":
                e["disk"][-1]["recs"][-1]["wn"] += 1
                break
        return ts
    ck.validate("FileOutputTrace", traces, negative=corrupt)
