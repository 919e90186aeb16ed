"""C08: runs restored from outputs resume from exactly the saved state (spec/Restart.tla)."""
import os
from check_c02 import MESHES
LEVEL = "model_checking"
NOTE = "random interleavings of steps, writes, loads (any write, any set, other solvers, meshes and resolutions, missing fields) of a fixed nonautonomous problem; equal histories must show equal values on a common probe grid, to 2e-4"
GEOS = ["box1", "box2", "box3", "disk", "annulus", "sphere", "ball", "shell"]


def run(ck):
    ck.design("RestartMC")
    traces = []
    for n, k in ck.pick([(1, 34), (2, 14), (3, 8), (4, 14), (6, 6)], [(1, 300), (2, 120), (3, 80), (4, 120), (5, 40), (6, 80), (7, 40), (8, 80), (9, 40)]):
        traces += ck.mpi_call(n, "restart_drive", "drive", seed=ck.seed * 100 + n, n=k, meshes=MESHES[n], geos=GEOS, path=os.path.join(ck.scratch, "c08"), timeout=800)[0]
        ck.count("ranks_%d" % n, k)
    for t in traces:
        for e in t["ev"]:
            ck.count("event_" + e["op"])
            if e["op"] == "load":
                ck.count("loads_refused" if not e["got"] else "loads_done")

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "load" and e["got"]][0]
        e["clock"][2] += 1
        return ts
    ck.validate("RestartTrace", traces, negative=neg)
