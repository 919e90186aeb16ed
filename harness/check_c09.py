"""C09: post-processing visits and merges every write exactly once (spec/Post.tla)."""
import os
from check_c02 import MESHES
LEVEL = "model_checking"
NOTE = "visits of synthetic sets by 1 to 9 workers, merges of virtual sets written by real runs on as many processes; the legacy merge of distributed sets without a joint file has no writer in this code base and is not driven"


def run(ck):
    ck.design("PostMC")
    traces = []
    for n, k in ck.pick([(1, 20), (2, 16), (3, 16), (4, 12), (5, 8), (7, 8)], [(1, 200), (2, 120), (3, 100), (4, 100), (5, 60), (6, 60), (7, 40), (8, 60), (9, 40)]):
        traces += ck.mpi_call(n, "post_drive", "drive", seed=ck.seed * 100 + n, n=k, meshes=MESHES[n], geos=["box1", "box2", "box3", "disk", "sphere"] if ck.thorough else ["box1", "box2", "disk"],
                              path=os.path.join(ck.scratch, "c09"), k=8, timeout=800)[0]
        ck.count("ranks_%d" % n, k)
    for t in traces:
        for e in t["ev"]:
            ck.count("event_" + e["op"] + ("_" + e["how"] if e["op"] == "merge" else ""))

    def neg(ts):
        e = [e for t in ts for e in t["ev"] if e["op"] == "visit" and e["visits"][0]][0]
        e["visits"][0][0][2] -= 1
        return ts
    ck.validate("PostTrace", traces, negative=neg)
