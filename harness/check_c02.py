"""C02: layouts partition the global data over the process mesh (spec/Partition.tla)."""
LEVEL = "model_checking"
NOTE = "every process's own report, gathered under mpirun, for random coordinate systems, bases, meshes and scales"
MESHES = {1: [[1], [1, 1], []], 2: [[2], [2, 1], [1, 2]], 3: [[3], [1, 3]], 4: [[4], [2, 2], [1, 4], [4, 1], [1, 2, 2], [2, 1, 2]], 5: [[5]],
          6: [[6], [2, 3], [3, 2], [1, 6]], 7: [[7]], 8: [[8], [2, 4], [4, 2], [2, 2, 2], [1, 2, 4]], 9: [[3, 3]]}
GEOS = [2, 3, 3, 4, "disk", "annulus", "sphere", "cylinder", "ball", "shell"]


def run(ck):
    ck.design("PartitionMC")
    traces = []
    for n, k in ck.pick([(1, 3), (3, 6), (4, 14), (6, 8)], [(1, 20), (2, 30), (3, 40), (4, 60), (5, 20), (6, 60), (7, 20), (8, 60), (9, 20)]):
        traces += ck.mpi_call(n, "partition_drive", "drive", seed=ck.seed * 100 + n, n=k, meshes=MESHES[n], geos=GEOS, timeout=300)[0]
        ck.count("ranks_%d" % n, k)
    # group sets of the triangular truncations, whole on one process
    traces += ck.mpi_call(1, "partition_drive", "drive", seed=ck.seed * 100 + 50, n=ck.pick(20, 60), meshes=MESHES[1], geos=["sphere", "sphere", "ball", "shell"], timeout=300)[0]

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "domain" and e["shape"][-1] > 1][0]
        e["ranks"][0]["el"][-1] = e["ranks"][0]["el"][-1][:-1]
        return ts
    ck.validate("PartitionTrace", traces, negative=neg)
