"""C20: subproblems partition the valid modes (spec/Pencils.tla)."""
LEVEL = "model_checking"
NOTE = "element numbers gathered and scattered by every subproblem on every process, for random variables, equations, conditions, couplings and meshes"
MESHES = {1: [[1]], 2: [[2]], 3: [[3]], 4: [[4], [2, 2], [1, 4]], 6: [[2, 3], [6], [3, 2]], 8: [[2, 2, 2], [4, 2], [8]]}
GEOS = [2, 3, 4, "disk", "annulus", "sphere", "cylinder", "ball", "shell"]


def run(ck):
    ck.design("PencilsMC")
    traces = []
    for n, k in ck.pick([(1, 90), (2, 25), (3, 10), (4, 25)], [(1, 250), (2, 100), (3, 60), (4, 100), (6, 60), (8, 30)]):
        traces += ck.mpi_call(n, "pencil_drive", "drive", seed=ck.seed * 100 + n, n=k, meshes=MESHES[n], geos=GEOS, timeout=400)[0]
        ck.count("ranks_%d" % n, k)

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "pencil" and e["inp"]][0]
        e["inp"] = e["inp"][1:]
        return ts
    ck.validate("PencilsTrace", traces, negative=neg, workers=8)
