"""Entry point: python -m vlib.main ID TIER [--replay FILE | --clause NAME | --examples N]."""

import importlib
import sys

from vlib import core


def main(argv):
    pid, tier = argv[0], argv[1]
    if tier not in ("quick", "thorough"):
        print("tier must be quick or thorough")
        return 3
    core.setup()
    mod = importlib.import_module(f"checks.{pid.lower()}")
    opts = {}
    it = iter(argv[2:])
    for a in it:
        if a.startswith("--"):
            opts[a[2:]] = next(it)
    if "replay" in opts:
        return core.replay(pid, mod, opts["replay"])
    return core.run(pid, mod, tier, opts)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    import os

    os._exit(rc)
