"""C21: eigenvalue solves (spec/Eigen.tla)."""
LEVEL = "model_checking"
NOTE = "dense and sparse solves, left vectors and modes of random problems with integer spectra, in every geometry"


def run(ck):
    ck.design("EigenMC")
    jobs = []
    for kind, n in ck.pick([("cart", 64), ("sphere", 24), ("disk", 24), ("annulus", 16), ("ball", 16), ("shell", 16)],
                           [("cart", 600), ("sphere", 200), ("disk", 200), ("annulus", 150), ("ball", 150), ("shell", 150)]):
        for j in range(8):
            jobs.append(dict(seed=ck.seed * 1000 + j, n=n // 8, kind=kind, steps=ck.pick(8, 14)))
        ck.count(kind, n)
    traces = [t for ts in ck.parallel("eigen_drive", "drive", jobs, what="eigenvalue problems") for t in ts]

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "solve" and not e["sparse"] and e["vals"]][0]
        e["vals"][0][0] += 1000
        return ts
    ck.validate("EigenTrace", traces, negative=neg, workers=8)
