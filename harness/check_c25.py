"""C25: transforms are exact and only modes that exist survive (spec/Transforms.tla, spec/FieldState.tla)."""
LEVEL = "model_checking"
NOTE = "tensor fields on every curvilinear basis, written and read on random grids through random libraries, filters and degree-by-degree operators; TLC computes which integer mode amplitudes each grid keeps; grid data are synthesized and analysed with closed-form modes that share no code with the library; Fourier and Jacobi axes of any size and library with the machine of FieldState"
MESHES = {1: [None], 2: [(2,)], 3: [(3,)], 4: [(4,), (2, 2), (1, 4)]}


def run(ck):
    ck.design("TransformsMC", workers=4)
    jobs = [dict(seed=ck.seed * 1000 + i, n=ck.pick(14, 120), nev=ck.pick(8, 10)) for i in range(8)]
    curv = sum(ck.parallel("transforms_drive", "drive", jobs), [])
    for n, k in ck.pick([(2, 8), (4, 6)], [(2, 60), (3, 30), (4, 60)]):
        curv += ck.mpi_call(n, "transforms_drive", "drive", seed=ck.seed * 1000 + 500 + n, n=k, nev=8, meshes=MESHES[n], timeout=600)[0]
    for t in curv:
        ck.count("curvilinear_%s" % t["cfg"]["kind"])
    jobs = [dict(seed=ck.seed * 1000 + 900 + i, n=ck.pick(25, 150), nev=ck.pick(22, 40), libs=True) for i in range(8)]
    cart = sum(ck.parallel("field_drive", "drive", jobs), [])
    ck.count("cartesian", len(cart))

    def negc(ts):
        for t in ts:
            for e in t["ev"]:
                if e["op"] == "read_g":
                    e["obs"][0] += 1
                    return ts
        return ts

    def neg(ts):
        for t in ts:
            for e in reversed(t["ev"]):
                for o in e["obs"]:
                    if any(o["c"]):
                        i = next(i for i, x in enumerate(o["c"]) if x)
                        o["c"][i] += 1
                        return ts
        return ts
    ck.validate("TransformsTrace", curv, negative=negc)
    ck.validate("FieldStateTrace", cart, negative=neg)
