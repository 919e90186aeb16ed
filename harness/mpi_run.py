"""mpirun target: call <module>.<func>(**kwargs) on every rank and save each rank's result."""
import importlib, json, os, sys, traceback
if __name__ == "__main__":
    mod, func, out, kw = sys.argv[1], sys.argv[2], sys.argv[3], json.loads(sys.argv[4])
    import ded
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    try:
        res = getattr(importlib.import_module(mod), func)(**kw)
        with open("%s.%d" % (out, comm.rank), "w") as f:
            json.dump(res, f)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        comm.Abort(3)
    comm.Barrier()
