"""C07: records in output files hold what the tasks denote, as asked for (spec/Record.tla)."""
import os
from check_c02 import MESHES
LEVEL = "model_checking"
NOTE = "gathered and virtual files (the parallel mode needs an MPI build of HDF5, absent here); the file is read back with h5py and compared with independently built fields and with polynomials at the recorded coordinates"
GEOS = ["box1", "box2", "box3", "disk", "annulus", "sphere", "ball", "shell"]


def run(ck):
    ck.design("RecordMC")
    traces = []
    for n, k in ck.pick([(1, 30), (2, 16), (3, 8), (4, 16), (6, 8)], [(1, 150), (2, 80), (3, 50), (4, 80), (5, 30), (6, 60), (7, 30), (8, 60), (9, 30)]):
        traces += ck.mpi_call(n, "output_drive", "drive", seed=ck.seed * 100 + n, n=k, meshes=MESHES[n], geos=GEOS, path=os.path.join(ck.scratch, "c07"), timeout=800)[0]
        ck.count("ranks_%d" % n, k)
    for t in traces:
        for m in t["cfg"]["modes"]:
            ck.count("files_" + m)
        for e in t["ev"]:
            ck.count("event_" + e["op"])

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "record" and e["data"]][0]
        e["data"][-1][0] += 300
        return ts
    ck.validate("RecordTrace", traces, negative=neg)
