"""Drives pools of real fields through random histories of operations (C01 serial, C03 parallel)."""
from fractions import Fraction

SCALES = [(1, 1), (1, 1), (3, 2), (1, 2), (2, 1), (1, 4), (5, 4)]


def rat(x):
    f = Fraction(float(x)).limit_denominator(64)
    return [f.numerator, f.denominator] if abs(float(f) - float(x)) < 1e-9 else [-1, 1]


def gather_global(comm, np, data, elements, shape, dtype):
    """Assemble global data from local pieces, each with its element indices per spatial axis; also
    whether every global element was contributed exactly once."""
    pieces = comm.gather((data.copy(), [np.asarray(e) for e in elements]), root=0)
    if comm.rank:
        return None, True
    out = np.full(shape, np.nan, dtype=dtype)
    hits = np.zeros(shape, dtype=int)
    nd = len(elements)
    for d, el in pieces:
        lead = d.shape[:d.ndim - nd]
        if d.shape[d.ndim - nd:] != tuple(len(e) for e in el):
            return out, False
        ix = np.ix_(*[np.arange(k) for k in lead], *el)
        out[ix] = d
        hits[ix] += 1
    return out, bool(np.all(hits == 1))


def library(rng, d3, ax):
    """Any transform library of the basis of an axis (cosine transforms need Chebyshev grids)."""
    cls = {"RF": d3.RealFourier, "CF": d3.ComplexFourier, "J": d3.Jacobi, "C": None}[ax.kind]
    return None if cls is None else rng.choice([x for x in cls.transforms if ax.kind != "J" or x == "matrix" or ax.ab0 == (-.5, -.5)])


def drive(seed, n, nev, mesh=None, dims=(1, 2, 3), groups=True, split=None, max_global=300, color=None, libs=False):
    import random
    from ded import np, d3
    from dedalus.core.evaluator import Evaluator
    from mpi4py import MPI
    from dedalus.tools.config import config
    import modal
    rng = random.Random(seed)
    world = MPI.COMM_WORLD
    traces = []
    for t in range(n):
        dim = rng.choice(dims)
        cplx = rng.random() < 0.4
        cs, coords = modal.coordsys(d3, dim)
        this_mesh = rng.choice(mesh) if mesh else None
        if this_mesh is not None and len(this_mesh) > dim - 1:
            this_mesh = [world.size] if dim > 1 else None
        comm = world
        if dim == 1 and world.size > 1:
            dim = 2
            cs, coords = modal.coordsys(d3, dim)
            this_mesh = [world.size]
        dtype = np.complex128 if cplx else np.float64
        dist = d3.Distributor(cs, dtype=dtype, comm=comm, mesh=this_mesh)
        base_axes = [modal.random_axis(rng, d3, cplx, const=0, sizes=([2, 3, 5, 6, 7, 8] if libs else [2, 4, 6, 8]) if dim < 3 else [2, 3, 4]) for a in range(dim)]
        # a size whose ratio to a grid size is rounded up (25/11*11 > 25 in floating point)
        odd = dim == 1 and rng.random() < .25
        if odd:
            base_axes[0] = modal.random_axis(rng, d3, cplx, const=0, sizes=[22 if not cplx and rng.random() < .5 else 11], kinds=["J" if not cplx else "CF"])
        bases = [ax.basis(d3, coords[a], library=library(rng, d3, ax) if libs else None) for a, ax in enumerate(base_axes)]
        if libs:
            early = str(rng.random() < .4)
            config["transforms"]["DEALIAS_BEFORE_CONVERTING"] = early
        # other families of the same sizes: fields of one group may have different bases along an axis
        alt_axes = [modal.random_axis(rng, d3, cplx, const=0, sizes=[ax.n], kinds=[("CF" if cplx else "RF") if ax.kind == "J" else "J"]) for ax in base_axes]
        alt = [ax.basis(d3, coords[a], library=library(rng, d3, ax) if libs else None) for a, ax in enumerate(alt_axes)]
        E = Evaluator(dist, {})
        kinds, kobjs, kbases = [], [], []
        flags = [[bool(g) for g in L.grid_space] for L in dist.layouts]
        locs = [[bool(g) for g in L.local] for L in dist.layouts]
        twins = groups and rng.random() < .5
        common = [list(rng.choice(SCALES))] * dim
        for k in range(2 if twins else rng.randint(1, 3)):
            other = k == 1 if twins else rng.random() < .4
            pick = [(alt_axes[a], alt[a]) if other and (twins or rng.random() < .6) and alt_axes[a].n == base_axes[a].n else (base_axes[a], bases[a]) for a in range(dim)]
            pick = [(modal.Ax("C", 1), None) if rng.random() < (.05 if twins else .2) else q for q in pick]
            axes = [q[0] for q in pick]
            rank = rng.choice([0, 0, 0, 1, 1, 2])
            z = 2 if cplx else 1
            N = dim ** rank * int(np.prod([a.n for a in axes])) * z
            if N > max_global:
                rank, N = 0, int(np.prod([a.n for a in axes])) * z
            kinds.append({"axes": [a.spec() for a in axes], "z": z, "N": N, "flags": flags, "rank": rank})
            kobjs.append((axes, rank))
            kbases.append(tuple(q[1] for q in pick if q[1] is not None))

        def make(k):
            axes, rank = kobjs[k]
            return dist.Field(bases=kbases[k], tensorsig=(cs,) * rank)
        kindof = [rng.randrange(len(kinds)) for _ in range(rng.randint(2, 3))]
        if twins:
            kindof[:2] = [0, 1]
        fields = [make(k) for k in kindof]
        cfg = {"kinds": kinds, "kindof": [k + 1 for k in kindof], "flags": flags, "locals": locs, "mesh": list(this_mesh or []), "ranks": world.size,
               "dtype": dtype.__name__}

        def observe(i):
            f = fields[i]
            axes, rank = kobjs[kindof[i]]
            lay, sc = f.layout.index, [rat(s) for s in f.scales]
            shape = tuple(int(x) for x in f.layout.global_shape(f.domain, f.scales))
            o = {"lay": lay + 1, "sc": sc, "shape": list(shape)}
            if dist.comm.size > 1:
                glob, once = gather_global(dist.comm, np, f.data, f.layout.local_elements(f.domain, f.scales), (dim,) * rank + shape, dtype)
                if dist.comm.rank:
                    return None
            else:
                glob, once = f.data, True
                o["shape"] = list(f.data.shape[rank:])
            return dict(o, **read(glob, axes, f.layout.index, sc, once))

        def read(glob, axes, lay, sc, once=True):
            if not once or not np.all(np.isfinite(glob)):
                return {"c": [], "exact": False}
            c, res = modal.from_layout(glob, axes, flags[lay], sc)
            if c is None:
                return {"c": [], "exact": False}
            v, ok = modal.ints(c, cplx)
            return {"c": v, "exact": bool(ok and res < 1e-6 * (1 + np.max(np.abs(glob), initial=0)))}

        evs, queue = [], []
        for e in range(nev):
            i = rng.randrange(len(fields))
            if twins and not queue and rng.random() < .2 and e >= len(fields):
                # bring all fields to one layout and common scales, then move them together
                at = rng.choice(dist.layouts)
                queue = [q for j in range(len(fields)) for q in (("scales", j), ("layout", j))] + [("group", 0)] * rng.randint(1, 3)
            forced = queue.pop(0) if queue and e >= len(fields) else None
            if forced:
                i = forced[1]
            f = fields[i]
            axes, rank = kobjs[kindof[i]]
            L = rng.choice(dist.layouts)
            sc = [list(rng.choice(SCALES)) for _ in range(dim)]
            if rng.random() < 0.5:
                sc = [sc[0]] * dim
            if twins and rng.random() < .7:
                sc = common
            fsc = tuple(s[0] / s[1] for s in sc)
            if all(s == sc[0] for s in sc) and rng.random() < 0.5:
                fsc = fsc[0]
            key = {0: "c", len(flags) - 1: "g"}.get(L.index, L) if rng.random() < 0.7 else L
            r = rng.random()
            if dim > 3 and rng.random() < .25:
                r = .93
            if forced:
                r = {"scales": .55, "layout": .45, "group": .99}[forced[0]]
                if forced[0] == "layout":
                    L = key = at
                sc = common
                fsc = tuple(s[0] / s[1] for s in sc)
            ev = {"f": i + 1, "lay": L.index + 1}
            first = e < len(fields)
            if first:
                i = e
                f, (axes, rank) = fields[i], kobjs[kindof[i]]
                ev["f"] = i + 1
            if first or r < 0.25:
                how = rng.choice(["set", "set", "setscale", "inplace", "local", "global", "load", "fill"])
                cur = [rat(s) for s in f.scales]
                wsc = sc if how in ("setscale", "load") else cur
                k = modal.random_coefs(rng, axes, (dim,) * rank, cplx)
                if how == "load":
                    L = dist.grid_layout if rng.random() < .6 else dist.coeff_layout
                if how in ("local", "global", "inplace"):
                    f.change_layout(L)
                if how == "load" and L is dist.coeff_layout:
                    wsc = [[1, 1]] * dim
                elif how == "load" and odd:
                    wsc = [rng.choice([[25, axes[0].n], [50, 22]])] if axes[0].kind != "C" else wsc
                # only amplitudes that the written grid can represent
                for a, ax in enumerate(axes):
                    if flags[L.index][a] and ax.kind != "C":
                        sh = [1] * k.ndim
                        sh[rank + a] = ax.n
                        k = k * np.reshape(ax.keep(ax.size(wsc[a])), sh)
                data = modal.to_layout(k, axes, flags[L.index], wsc)
                if not cplx:
                    data = data.real
                wscf = tuple(s[0] / s[1] for s in wsc)
                sl = (slice(None),) * rank + L.slices(f.domain, wscf)
                ev.update(op="write", how=how, k=modal.ints(k, cplx)[0], lay=L.index + 1, sc=wsc)
                if how == "set":
                    f[key if dist.get_layout_object(key) is L else L] = data[sl]
                elif how == "setscale":
                    f[L, fsc] = data[sl]
                elif how == "inplace":
                    f.data[:] = 0
                    f.data += data[sl]
                elif how == "local":
                    f.set_local_data(data[sl])
                elif how == "global":
                    if rank and False:
                        f.set_local_data(data[sl])
                    f.set_global_data(data)
                elif how == "fill":
                    f.preset_layout(L)
                    f.data[...] = data[sl]
                else:
                    if L is dist.grid_layout:
                        f.load_from_global_grid_data(data)
                        ev.update(op="load", wsc=wsc, sc=[rat(s) for s in f.domain.dealias])
                    else:
                        f.load_from_global_coeff_data(data)
                        ev.update(sc=cur)
            elif r < 0.35:
                ev.update(op="read", sc=[rat(s) for s in f.scales])
                f[key]
            elif r < 0.43:
                ev.update(op="read", sc=sc)
                f[key, fsc]
            elif r < 0.5:
                ev.update(op="layout")
                f.change_layout(key)
            elif r < 0.62:
                ev.update(op="scales", sc=sc)
                f.change_scales(fsc)
            elif r < 0.72:
                op = rng.choice(["require_g", "require_c", "require_local"])
                ax = rng.randrange(dim)
                if op != "require_local" and rng.random() < 0.3:
                    ax = None
                ev.update(op=op, axis=0 if ax is None else ax + 1)
                {"require_g": f.require_grid_space, "require_c": f.require_coeff_space, "require_local": f.require_local}[op](ax)
            elif r < 0.77:
                if rng.random() < 0.5 and f.layout.index < len(flags) - 1:
                    ev.update(op="towards_g")
                    f.towards_grid_space()
                elif f.layout.index > 0:
                    ev.update(op="towards_c")
                    f.towards_coeff_space()
                else:
                    ev.update(op="none")
            elif r < 0.85:
                targets = [j for j in range(len(fields)) if kindof[j] == kindof[i]]
                j = rng.choice(targets)
                ev.update(op="copy", f=j + 1, src=i + 1)
                fields[j] = f.copy()
            elif r < 0.89 and not any(ax.kind == "C" for ax in axes):
                op = rng.choice(["low", "high"])
                kw = {"scales": fsc}
                if rng.random() < 0.4:
                    if odd and rng.random() < .6:
                        sc = [[25, axes[0].n]]
                    kw = {"shape": tuple(ax.size(s) for ax, s in zip(axes, sc))}
                ev.update(op=op, fsc=sc)
                (f.low_pass_filter if op == "low" else f.high_pass_filter)(**kw)
            elif r < 0.94:
                how = rng.choice(["gather", "allgather"])
                root = rng.randrange(dist.comm.size)
                ev.update(op="gather", how=how)
                lk = key if rng.random() < 0.7 else None
                if lk is None:
                    ev["lay"] = f.layout.index + 1
                if how == "gather":
                    data = f.gather_data(root=root, layout=lk)
                    same = [(data is not None) == (dist.comm.rank == root)]
                    data = dist.comm.bcast(data, root=root)
                else:
                    data = f.allgather_data(layout=lk)
                    ref = dist.comm.bcast(data, root=0)
                    same = dist.comm.allgather(bool(data.shape == ref.shape and np.array_equal(data, ref)))
                rd = read(data, axes, f.layout.index, [rat(s) for s in f.scales])
                ev.update(val=rd["c"], exact=rd["exact"], everywhere=bool(all(dist.comm.allgather(all(same)))))
            else:
                fs = [j for j in range(len(fields)) if rng.random() < 0.8] or [i]
                to = rng.choice(["g", "c"])
                how = rng.choice(["eval", "path"])
                if forced or (twins and rng.random() < .5):
                    fs = list(range(len(fields)))
                lays = set(fields[j].layout.index for j in fs)
                if how == "path" and len(lays) == 1:
                    idx = lays.pop()
                    if idx == len(flags) - 1 or (idx and rng.random() < 0.5):
                        dist.paths[idx - 1].decrement([fields[j] for j in fs])
                        to = idx - 1
                    else:
                        dist.paths[idx].increment([fields[j] for j in fs])
                        to = idx + 1
                    ev.update(op="group", fs=[j + 1 for j in fs], lay=to + 1)
                else:
                    (E.require_grid_space if to == "g" else E.require_coeff_space)([fields[j] for j in fs])
                    ev.update(op="group", fs=[j + 1 for j in fs], lay=len(flags) if to == "g" else 1)
            ev["obs"] = [observe(j) for j in range(len(fields))]
            evs.append(ev)
        traces.append({"cfg": cfg, "ev": evs})
    config["transforms"]["DEALIAS_BEFORE_CONVERTING"] = "False"
    return traces if world.rank == 0 else None
