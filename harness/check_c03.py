"""C03: redistribution over process meshes (spec/FieldState.tla on distributed fields)."""
LEVEL = "model_checking"
from check_c01 import corrupt


def run(ck):
    runs = ck.pick([(4, {}, 24, 24), (3, {}, 12, 24), (6, {"parallelism.GROUP_TRANSPOSES": "False"}, 10, 18)],
                   [(2, {}, 40, 40), (3, {}, 40, 40), (4, {}, 60, 40), (5, {}, 30, 40), (6, {}, 60, 40), (8, {}, 60, 40),
                    (4, {"parallelism.GROUP_TRANSPOSES": "False"}, 40, 40), (6, {"parallelism.SYNC_TRANSPOSES": "True"}, 30, 40),
                    (4, {"parallelism.TRANSPOSE_LIBRARY": "mpi"}, 40, 40), (6, {"parallelism.TRANSPOSE_LIBRARY": "mpi"}, 40, 40)])
    if not ck.thorough:
        runs.append((3, {"parallelism.TRANSPOSE_LIBRARY": "mpi"}, 8, 18))
        runs.append((8, {}, 12, 14))
    import json
    traces = []
    for i, (n, cfg, nt, nev) in enumerate(runs):
        meshes = {2: [[2]], 3: [[3]], 4: [[4], [2, 2], [4, 1], [1, 4]], 5: [[5]], 6: [[6], [2, 3], [3, 2]], 8: [[8], [2, 4], [4, 2], [2, 2, 2], [1, 2, 4], [4, 1, 2]]}[n]
        traces += ck.mpi_call(n, "field_drive", "drive", env={"VERIF_CFG": json.dumps(cfg)}, seed=ck.seed * 100 + i, n=nt, nev=nev, mesh=meshes if n < 8 or ck.thorough else meshes[3:],
                              dims=[2, 3, 3] if n < 8 else [3, 4, 4], timeout=240 if not ck.thorough else 600)[0]
        ck.count("ranks_%d" % n, nt)
    ck.validate("FieldStateTrace", traces, negative=corrupt)
