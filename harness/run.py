import importlib, sys
import common
if __name__ == "__main__":
    pid, tier = sys.argv[1], sys.argv[2]
    common.main(pid, tier, importlib.import_module("check_" + pid.lower()))
