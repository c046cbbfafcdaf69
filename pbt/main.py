import importlib
import os
import sys

from . import build

ALL = [f"P{i:02d}" for i in range(1, 23)]


def main(argv):
    build.ensure()
    import multiprocessing.connection  # noqa: F401
    from . import core
    if argv and argv[0] == "--setup":
        print("hypothesis", core.hypothesis.__version__, "ready; geoana built")
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("pbt." + pid.lower())
    if len(argv) > 1 and argv[1].endswith(".json"):
        return core.replay(pid, mod.FACETS, argv[1])
    only = argv[1].split(",") if len(argv) > 1 else None
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    return core.run_property(pid, mod.FACETS, mod.ASSUMPTIONS, tier, seed, workers, only)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
