#!/opt/venv/bin/python
"""check.py ID [--replay FILE]

Decides property ID on /repo's working tree by generated-input search against the reference model.
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=ID replay=PATH": broken.  Exit 2: no answer.
VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough."""
import os
import sys
import tempfile
import time

PY = "/opt/venv/bin/python"
if sys.executable != PY and os.path.exists(PY) and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = tempfile.mkdtemp(prefix="verif-")
os.environ.update(
    TZ="UTC", MPLBACKEND="Agg", MPLCONFIGDIR=SCRATCH, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(SCRATCH, "hyp"),
)
time.tzset()
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(SCRATCH, "no-pyc")  # never trust a stale .pyc of /repo
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis; after the venv's numpy/pandas

import shutil  # noqa
import warnings  # noqa

warnings.simplefilter("ignore")


def main():
    import numpy as np

    np.seterr(all="ignore")
    import staircase

    assert os.path.realpath(staircase.__file__).startswith(os.path.realpath(REPO) + "/"), staircase.__file__
    from vlib import runner

    if "--self-test" in sys.argv:  # the setup command: everything needed can be imported, the model agrees with itself
        import hypothesis
        from vlib import selftest

        selftest.run()
        print("ok: staircase from %s, numpy %s, hypothesis %s" % (os.path.dirname(staircase.__file__), np.__version__, hypothesis.__version__))
        return 0
    return runner.main(sys.argv[1:], HERE)


if __name__ == "__main__":
    rc = 2
    owner = os.getpid()
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:  # noqa
        import traceback

        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
    os._exit(rc)
