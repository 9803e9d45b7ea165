import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    from harness import common
    # the code under test prints freely: only the verdicts reach the caller
    common.OUT = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_SHOW"):
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        mod = importlib.import_module(f"harness.drivers.{prop.lower()}")
        rc = mod.run()
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(common.REPO) + os.sep
        if tb and isinstance(e, Exception) and any(os.path.realpath(f.filename).startswith(repo) for f in tb):
            # the code under test failed while the driver was setting up a case
            rc = common.crash_outside_case(prop.upper(), e)
        else:
            traceback.print_exc(file=common.OUT)
            rc = 2
    common.OUT.flush()
    sys.exit(rc)


main()
