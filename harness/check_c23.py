"""C23: memoization and class dispatch (spec/Memo.tla)."""
LEVEL = "model_checking"
VALUES = ["0", "1", "(1,)", "()", "((1,), ())", "'c'", "('c', 1)", "None", "(0, 1)"]


def make_sig(rng):
    params = []
    dflt = False
    for i in range(rng.randint(0, 3)):
        dflt = dflt or rng.random() < 0.5
        params.append({"name": "abc"[i], "kind": "pos", "default": rng.choice(VALUES) if dflt else ""})
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        params.append({"name": "de"[i], "kind": "kwonly", "default": rng.choice(["", rng.choice(VALUES)])})
    return {"params": params, "va": rng.random() < 0.25, "vk": rng.random() < 0.25}


def sig_text(sig, first):
    out = list(first)
    for p in sig["params"]:
        if p["kind"] == "pos":
            out.append(p["name"] + ("=" + p["default"] if p["default"] else ""))
    if sig["va"]:
        out.append("*rest")
    elif any(p["kind"] == "kwonly" for p in sig["params"]):
        out.append("*")
    out += [p["name"] + ("=" + p["default"] if p["default"] else "") for p in sig["params"] if p["kind"] == "kwonly"]
    if sig["vk"]:
        out.append("**extra")
    return ", ".join(out)


def body(sig, tag):
    return "(%s, (%s), %s, %s)" % (tag, "".join(p["name"] + ", " for p in sig["params"]),
                                    "rest" if sig["va"] else "()", "extra" if sig["vk"] else "{}")


def spell(v):
    return repr(v)


def answer(res, slots):
    tag, fixed, rest, extra = res
    return {"tag": tag, "fixed": [spell(v) for v in fixed], "rest": [spell(v) for v in rest],
            "extra": [[k, spell(v)] for k, v in extra.items()]}


NOT = {"tag": "", "fixed": [], "rest": [], "extra": []}


def rand_call(rng, sig, wild):
    """Mostly valid calls in a random spelling."""
    few = VALUES[:rng.choice([2, 4, len(VALUES)])]
    pos, kw = [], []
    P = [p for p in sig["params"] if p["kind"] == "pos"]
    k = rng.randint(0, len(P))
    pos = [rng.choice(few) for _ in range(k)]
    for p in P[k:] + [p for p in sig["params"] if p["kind"] == "kwonly"]:
        if p["default"] == "" or rng.random() < 0.5:
            if not (wild and rng.random() < 0.2):
                v = p["default"] if p["default"] and rng.random() < 0.5 else rng.choice(few)
                kw.append([p["name"], v])
    if k == len(P) and (sig["va"] or wild and rng.random() < 0.3):
        pos += [rng.choice(few) for _ in range(rng.randint(0, 2))]
    if sig["vk"] or (wild and rng.random() < 0.3):
        for n in rng.sample(["y", "z", "a"] if wild else ["y", "z"], rng.randint(0, 2)):
            if n not in [q[0] for q in kw]:
                kw.append([n, rng.choice(few)])
    rng.shuffle(kw)
    return pos, kw


def drive(seed, n, nev):
    import gc, random
    from dedalus.tools import cache as C
    from dedalus.tools.dispatch import MultiClass
    from dedalus.tools.exceptions import SkipDispatchException
    rng = random.Random(seed)
    traces = []
    ran = [0]

    def tick():
        ran[0] += 1
    for k in range(n):
        slots, ev, calls, objs = [], [], [], {}
        env = {"CachedFunction": C.CachedFunction, "CachedMethod": C.CachedMethod, "CachedAttribute": C.CachedAttribute,
               "CachedClass": C.CachedClass, "tick": tick}

        def slot(sig, limit, tag, memo, how):
            slots.append({"sig": sig, "limit": limit, "tag": tag, "memo": memo})
            calls.append(how)
        which = rng.choice(["functions", "methods", "classes", "inherit", "dispatch"])
        if which == "functions":
            for i in range(rng.randint(1, 3)):
                sig = make_sig(rng)
                limit = rng.choice([0, 0, 1, 2, 3])
                deco = "CachedFunction" if not limit else "CachedFunction(max_size=%d)" % limit
                exec("@%s\ndef f%d(%s):\n    tick()\n    return %s\n" % (deco, i, sig_text(sig, []), body(sig, "'f%d'" % i)), env)
                slot(sig, limit, "f%d" % i, True, env["f%d" % i])
        elif which in ("methods", "inherit"):
            sigs = [make_sig(rng), make_sig(rng)]
            src = ""
            depth = rng.choice([2, 3]) if which == "inherit" else 1
            over = [[True, True]] + [[rng.random() < 0.7, rng.random() < 0.7] for _ in range(depth - 1)]
            lim = [rng.choice([0, 0, 0, 2]), 0]
            for c in range(depth):
                src += "class K%d%s:\n    def __init__(self, n): self.n = n\n" % (c, "(K%d)" % (c - 1) if c else "")
                for m in range(2):
                    if not over[c][m]:
                        continue
                    deco = "CachedMethod" if not lim[m] else "CachedMethod(max_size=%d)" % lim[m]
                    up = "super().m%d(%s); " % (m, "".join(p["name"] + ", " if p["kind"] == "pos" else "%s=%s, " % (p["name"], p["name"])
                                                             for p in sigs[m]["params"])) if c and rng.random() < 0.6 else ""
                    keep = "r = ran(); %sran(r); " % up if up else ""
                    src += "    @%s\n    def m%d(%s):\n        tick(); %s\n        return %s\n" % (
                        deco, m, sig_text(sigs[m], ["self"]), keep, body(sigs[m], "'K%d.m%d.' + self.n" % (c, m)))
                if over[c][0]:
                    src += "    @CachedAttribute\n    def at(self):\n        tick()\n        return ('K%d.at.' + self.n, (), (), {})\n" % c
                    src += "    @classmethod\n    @CachedMethod\n    def cm(cls%s):\n        tick()\n        return %s\n" % (
                        ", " + sig_text(sigs[1], []) if sig_text(sigs[1], []) else "", body(sigs[1], "'cm.' + cls.__name__"))

            def ranf(v=None):
                if v is None:
                    return ran[0]
                ran[0] = v
            env["ran"] = ranf
            exec(src, env)
            nosig = {"params": [], "va": False, "vk": False}
            insts = [(c, env["K%d" % c]("i%d" % j)) for j, c in enumerate(rng.choice(range(depth)) for _ in range(3))]
            for j, (c, o) in enumerate(insts):
                for m in range(2):
                    def_c = max(d for d in range(c + 1) if over[d][m])
                    slot(sigs[m], lim[m], "K%d.m%d.i%d" % (def_c, m, j), True, (lambda o, m: lambda *a, **k: getattr(o, "m%d" % m)(*a, **k))(o, m))
                    if which == "inherit" and def_c:
                        # the overridden one, through super()
                        up = max(d for d in range(def_c) if over[d][m])
                        slot(sigs[m], lim[m], "K%d.m%d.i%d" % (up, m, j), False,
                             (lambda o, m, k: lambda *a, **kw: getattr(super(k, o), "m%d" % m)(*a, **kw))(o, m, env["K%d" % def_c]))
                def_c = max(d for d in range(c + 1) if over[d][0])
                slot(nosig, 0, "K%d.at.i%d" % (def_c, j), True, (lambda o: lambda: o.at)(o))
            for c in range(depth):
                slot(sigs[1], 0, "cm.K%d" % c, True, (lambda c: lambda *a, **k: env["K%d" % c].cm(*a, **k))(c))
        elif which == "classes":
            for i in range(2):
                sig = make_sig(rng)
                sig["vk"] = False
                for p in sig["params"]:
                    p["kind"] = "pos"
                dflt = False
                for p in sig["params"]:
                    dflt = dflt or p["default"] != ""
                    p["default"] = p["default"] or (rng.choice(VALUES) if dflt else "")
                base = "I0, " if i and rng.random() < 0.5 else ""
                exec("class I%d(%smetaclass=CachedClass):\n    def __init__(%s):\n        tick(); self.res = %s\n" % (
                    i, base, sig_text(sig, ["self"]), body(sig, "'I%d'" % i)), env)
                slot(sig, 0, "I%d" % i, True, env["I%d" % i])
        tree = []
        if which == "dispatch":
            narg = 4
            size = rng.randint(1, 7)
            par = [None] + [rng.randrange(i) for i in range(1, size)]
            for i in range(size):
                tree.append({"children": [j + 1 for j in range(size) if par[j] == i], "stop": i > 0 and rng.random() < 0.15,
                             "app": [rng.random() < 0.6 for _ in range(narg)], "skip": [rng.random() < 0.08 for _ in range(narg)]})
            cl = []
            for i, c in enumerate(tree):
                def check(cls, arg, i=i):
                    return tree[i]["app"][arg]

                def pre(cls, arg, i=i):
                    if tree[i]["skip"][arg]:
                        raise SkipDispatchException(output=("skip", i + 1))
                    return (arg,), {}
                d = {"_check_args": classmethod(check), "_preprocess_args": classmethod(pre), "__init__": lambda self, arg: None, "stop_dispatch": c["stop"]}
                cl.append(MultiClass("D%d" % i, (cl[par[i]],) if i else (), d))
            for _ in range(nev):
                i, a = rng.randrange(size), rng.randrange(narg)
                try:
                    r = cl[i](a)
                    r = list(r) if isinstance(r, tuple) else ["class", cl.index(type(r)) + 1]
                except (TypeError, NotImplementedError, ValueError) as e:
                    r = [type(e).__name__, 0]
                ev.append({"op": "dispatch", "cls": i + 1, "arg": a + 1, "res": r})
        else:
            toks = 0
            for _ in range(nev):
                s = rng.randrange(len(slots))
                if which == "classes" and objs and rng.random() < 0.25:
                    t = rng.choice(sorted(objs))
                    del objs[t]
                    gc.collect()
                    ev.append({"op": "drop", "tok": t})
                    continue
                pos, kw = rand_call(rng, slots[s]["sig"], wild=rng.random() < 0.15)
                ran[0] = 0
                e = {"op": "new" if which == "classes" else "call", "slot": s + 1, "pos": [spell(eval(v)) for v in pos],
                     "kw": [[a, spell(eval(v))] for a, v in kw], "err": False, "got": NOT, "ran": 0}
                try:
                    r = calls[s](*[eval(v) for v in pos], **{a: eval(v) for a, v in kw})
                    if which == "classes":
                        t = next((t for t, o in objs.items() if o is r), 0)
                        if not t:
                            toks += 1
                            t = toks
                            objs[t] = r
                        e["tok"] = t
                        r2, r = r, r.res
                        del r2
                    e.update(got=answer(r, slots))
                except (TypeError, KeyError):
                    e.update(err=True)
                    if which == "classes":
                        e["tok"] = 0
                e["ran"] = ran[0]
                ev.append(e)
        for s in slots:
            s["sig"] = dict(s["sig"], params=[dict(p, default=spell(eval(p["default"])) if p["default"] else "") for p in s["sig"]["params"]])
        traces.append({"id": k, "cfg": {"slots": slots, "tree": tree, "what": which}, "ev": ev})
    return traces


def digest(x):
    import hashlib
    import numpy as np
    from scipy import sparse

    def walk(v):
        if sparse.issparse(v):
            return ("sp", v.shape, walk(v.toarray()))
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                return ("obj", v.shape, tuple(walk(w) for w in v.ravel()))
            return ("arr", v.shape, str(v.dtype), hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest())
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(walk(w) for w in v)
        if isinstance(v, dict):
            return tuple((walk(a), walk(b)) for a, b in v.items())
        if isinstance(v, (int, float, complex, str, bool, slice, type(None), np.generic, np.dtype)):
            return repr(v)
        if isinstance(v, type):
            return v.__qualname__
        d = [type(v).__qualname__]
        for a in ("shape", "bounds", "dealias", "a", "b", "a0", "b0", "k", "alpha", "radius", "radii", "dtype", "index", "size", "mesh", "name", "grid_shape", "Lmax", "Nmax", "elements"):
            if hasattr(type(v), a) or a in getattr(v, "__dict__", {}):
                w = getattr(v, a)
                if not callable(w):
                    d.append((a, walk(w)))
        if hasattr(v, "bases") and not callable(v.bases):
            d.append(tuple(walk(b) for b in v.bases))
        return tuple(d)
    return hashlib.sha1(repr(walk(x)).encode()).hexdigest()[:16]


def drive_real(order):
    """Ask memoized members of the code base the same questions in a given order."""
    import random
    from ded import np, d3
    qs = []
    c2 = d3.CartesianCoordinates('x', 'y')
    dist = d3.Distributor(c2, dtype=np.float64)
    bases = {"cheb": d3.Chebyshev(c2['y'], 6, bounds=(0, 2), dealias=3/2), "leg": d3.Legendre(c2['y'], 6, bounds=(0, 2)),
             "ultra": d3.Ultraspherical(c2['y'], 7, alpha0=0, alpha=1, bounds=(-1, 3)), "rf": d3.RealFourier(c2['x'], 8, bounds=(0, 4), dealias=3/2)}
    pol = d3.PolarCoordinates('phi', 'r')
    dp = d3.Distributor(pol, dtype=np.float64)
    disk = d3.DiskBasis(pol, (8, 6), dtype=np.float64, radius=2, dealias=3/2)
    ann = d3.AnnulusBasis(pol, (8, 6), dtype=np.float64, radii=(1, 2), k=1)
    sp = d3.SphericalCoordinates('phi', 'theta', 'r')
    ds = d3.Distributor(sp, dtype=np.float64)
    ball = d3.BallBasis(sp, (8, 6, 4), dtype=np.float64, radius=2, dealias=3/2)
    shell = d3.ShellBasis(sp, (8, 6, 4), dtype=np.float64, radii=(1, 3))

    def q(key, f):
        qs.append((key, f))

    def interval(b):
        for s in (0.5, 1, 1.5, 2):
            for name in ("global_grid", "local_grid"):
                q("%s.%s(%s)" % (b, name, s), lambda b=b, s=s, name=name: getattr(bases[b], name)(dist, scale=s))
                q("%s.%s[%s]" % (b, name, s), lambda b=b, s=s, name=name: getattr(bases[b], name)(dist, s))
            q("%s.grid_shape(%s)" % (b, s), lambda b=b, s=s: bases[b].grid_shape((s,)))
        q("%s.elements_to_groups" % b, lambda b=b: bases[b].elements_to_groups((False,), (np.arange(5),)))
        for i in (0, 1, 2, 3):
            q("%s.product_matrix(%d)" % (b, i), lambda b=b, i=i: bases[b].product_matrix(bases[b], bases[b], i))
            q("%s.product_matrix0(%d)" % (b, i), lambda b=b, i=i: bases[b].product_matrix(None, bases[b], i))
    for b in bases:
        interval(b)
    for b in ("cheb", "leg", "ultra"):
        for k in (0, 1, 2):
            q("%s.derivative_basis(%d)" % (b, k), lambda b=b, k=k: bases[b].derivative_basis(k))
    for nm, B, d in (("disk", disk, dp), ("ann", ann, dp), ("ball", ball, ds), ("shell", shell, ds)):
        for k in (0, 1, 2):
            q("%s.derivative_basis(%d)" % (nm, k), lambda B=B, k=k: B.derivative_basis(k))
        for s in (0.5, 1, 1.5):
            q("%s.global_grids(%s)" % (nm, s), lambda B=B, s=s, d=d: B.global_grids(d, (s,) * d.dim))
            q("%s.grid_shape(%s)" % (nm, s), lambda B=B, s=s, d=d: B.grid_shape((s,) * d.dim))
    for dm, dd, fields in (("c", dist, [dist.Field(bases=(bases["rf"], bases["cheb"])), dist.Field(bases=bases["cheb"]), dist.Field()]),
                           ("p", dp, [dp.Field(bases=disk), dp.VectorField(pol, bases=ann)]), ("s", ds, [ds.Field(bases=ball), ds.VectorField(sp, bases=shell)])):
        for fi, f in enumerate(fields):
            for li in range(len(dd.layouts)):
                for s in (1, 1.5, 0.5):
                    sc = (s,) * dd.dim
                    for name in ("global_shape", "local_shape", "slices", "local_elements", "global_elements", "chunk_shape", "group_shape", "buffer_size", "local_groupsets", "local_group_arrays", "valid_elements"):
                        def g(dd=dd, f=f, li=li, sc=sc, name=name):
                            lay = dd.layouts[li]
                            m = getattr(lay, name)
                            if name == "chunk_shape" or name == "group_shape":
                                return m(f.domain)
                            if name == "local_groupsets":
                                return m((True,) * dd.dim, f.domain, sc, broadcast=True) if li == 0 else None
                            if name == "valid_elements":
                                return m(f.tensorsig, f.domain, sc) if li == 0 else None
                            if name == "buffer_size":
                                return m(f.domain, sc, f.dtype)
                            return m(f.domain, sc)
                        q("%s%d.%s(%d,%s)" % (dm, fi, name, li, s), g)
    rng = random.Random(order)
    todo = qs + rng.sample(qs, len(qs) // 2)
    rng.shuffle(todo)
    ev, skipped = [], 0
    for key, f in todo:
        try:
            r = digest(f())
        except Exception as e:
            r = "raised " + type(e).__name__
            skipped += 1
        ev.append({"op": "real", "key": key, "dig": r})
    return {"ev": ev, "raised": skipped}


def corrupt(ts):
    for t in ts:
        for e in t["ev"]:
            if e["op"] == "call" and not e["err"] and e["got"]["fixed"]:
                e["got"]["fixed"][0] += "x"
                return [t]
    return ts[:1]


def run(ck):
    ck.design("MemoMC", workers=8)
    if ck.thorough:
        ck.design("MemoMC", "MemoMCdeep", workers=8)
    traces = [t for r in ck.parallel("check_c23", "drive", [dict(seed=ck.seed * 100 + j, n=ck.pick(90, 900), nev=ck.pick(30, 50)) for j in range(8)],
                                     what="memoized calls") for t in r]
    for t in traces:
        ck.count("traces_" + t["cfg"]["what"])
    real = ck.parallel("check_c23", "drive_real", [dict(order=ck.seed * 10 + j) for j in range(ck.pick(3, 16))], what="memoized members")
    traces.append({"id": -1, "cfg": {"slots": [], "tree": [], "what": "real"}, "ev": [e for r in real for e in r["ev"]]})
    ck.count("questions_to_memoized_members", sum(len(r["ev"]) for r in real))
    ck.count("questions_refused", sum(r["raised"] for r in real))
    ck.validate("MemoTrace", traces, negative=corrupt, workers=8)
