"""python -m mc.run <ID> [quick|thorough]  |  python -m mc.run replay <file>"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)

from . import clock  # noqa: E402

clock.install()

import logging  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import zigpy  # noqa: E402

assert os.path.realpath(zigpy.__file__).startswith(os.path.realpath(REPO) + "/"), zigpy.__file__

from . import report  # noqa: E402


def main(argv):
    if argv and argv[0] == "replay":
        return report.replay_file(argv[1])
    if argv and argv[0] == "selftest":
        from . import loop, explore, world  # noqa: F401

        with loop.LoopCtx() as lp:
            world.make_app()
            lp.run_idle()
        print("selftest ok", zigpy.__file__)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return report.run_check(prop, tier, seed)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
