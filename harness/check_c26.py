"""C26: a distributed run reproduces the serial run (spec/Spmd.tla)."""
import os
from check_c02 import MESHES
LEVEL = "model_checking"
NOTE = "random initial, linear, nonlinear and eigenvalue problems in every geometry, each solved on one process and on several meshes (including meshes that leave processes without modes); results compared to 5e-6; problems come from templates with random parameters"


def run(ck):
    ck.design("SpmdMC")
    n = ck.pick(32, 400)
    runs = {}
    for P in ck.pick([1, 2, 3, 4, 6], [1, 2, 3, 4, 5, 6, 7, 8, 9]):
        for r in ck.mpi_call(P, "mesh_drive", "drive", seed=ck.seed, ks=list(range(n)), meshes=MESHES[P], path=os.path.join(ck.scratch, "c26"), timeout=ck.pick(200, 800))[0]:
            runs.setdefault(r["k"], []).append(r)
            if not r["err"]:
                ck.count("run_" + r["info"]["kind"])
                ck.count("ranks_%d" % P)
    # what is not supported on one process is not asked of several
    skipped = [k for k, v in runs.items() if v[0]["P"] != 1 or v[0]["err"]]
    if len(skipped) > n // 4:
        ck.violation("problems that solve on one process no longer do", {"errors": [runs[k][0]["err"] for k in skipped]})
    ck.count("skipped", len(skipped))
    traces = [{"cfg": v[0]["info"], "ev": v} for k, v in sorted(runs.items()) if k not in skipped]

    def neg(ts):
        t = [t for t in ts if len(t["ev"]) > 1 and not t["ev"][1]["err"]][0]
        t["ev"][1]["res"][-1]["x"][0] += 50
        return ts
    ck.validate("MeshTrace", traces, negative=neg)
    # eigenvalue problems, each process on its own
    one = ck.mpi_call(1, "mesh_drive", "evp_own", n=4)[0]
    three = ck.mpi_call(3, "mesh_drive", "evp_own", n=4, timeout=25, known_hang="evp-own-gather")
    if three is not None:
        a, b = (sorted(y for x in r for y in x) for r in (one, three[0]))
        ev = [{"P": p, "agree": True, "err": "", "coupled": False, "res": [{"name": "eigenvalues %d" % g, "dims": d, "x": x} for g, (d, x) in r]} for p, r in ((1, a), (3, b))]
        ck.validate("MeshTrace", [{"cfg": {}, "ev": ev}])
