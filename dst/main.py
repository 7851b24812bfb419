from . import env            # noqa: F401  (first: fixes the environment)
from . import sched
sched.install_locks()        # before the libraries are imported

import os
import sys


def main(argv):
    from . import runner
    if argv[0] == "replay":
        return runner.replay(argv[1])
    if argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return runner.run_check(argv[1], tier, seed)
    raise SystemExit("usage: main check ID [--tier T] | replay FILE")


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        print("HARNESS-ERROR")
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
