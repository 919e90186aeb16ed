"""C14: global reductions agree on every process and with the definition (spec/Reduce.tla)."""
from check_c02 import MESHES
LEVEL = "model_checking"
NOTE = "numbers reported by every process, gathered under mpirun, for random integer data and polynomials; volume averages on the ball and shell, and integrals over a lone sphere, are not implemented"
GEOS = [2, 3, "disk", "annulus", "sphere", "cylinder", "ball", "shell"]
POLYS = ["box2", "box3", "disk", "annulus", "sphere", "ball", "shell"]


def run(ck):
    ck.design("ReduceMC")
    traces = []
    for n, k in ck.pick([(1, 60), (2, 24), (3, 12), (4, 30), (6, 16)], [(1, 300), (2, 150), (3, 100), (4, 150), (5, 60), (6, 100), (7, 60), (8, 100), (9, 60)]):
        traces += ck.mpi_call(n, "reduce_drive", "drive", seed=ck.seed * 100 + n, n=k, meshes=MESHES[n], geos=GEOS, polys=POLYS, timeout=600)[0]
        ck.count("ranks_%d" % n, k)
    for t in traces:
        for e in t["ev"]:
            ck.count("reduction_" + e["op"])

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "integral" and len(e["terms"]) > 0][0]
        e["got"][-1] += 50
        return ts
    ck.validate("ReduceTrace", traces, negative=neg)
