"""Imports the code under test from /repo's working tree and closes the environment around it.

* no byte code is read from or written to /repo (sys.pycache_prefix points at a private scratch directory),
* matplotlib uses the Agg backend and plt.show() is a no-op,
* stdout of the code under test is swallowed (its prints are not observations).
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("SW_REPO", "/repo")

os.environ["MPLBACKEND"] = "Agg"
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"

_scratch = tempfile.mkdtemp(prefix="swmc-")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_cleanup)
sys.pycache_prefix = _scratch          # neither stale nor new byte code of /repo is ever used
sys.dont_write_bytecode = True
os.environ.setdefault("MPLCONFIGDIR", os.path.join(_scratch, "mpl"))
sys.path.insert(0, REPO)



class _Clock:
    """All clocks of the time module; virtual=None delegates to the real one, else virtual() is the time in seconds."""
    virtual = None

    @staticmethod
    def install():
        import time
        for name, scale in (("time", 1), ("perf_counter", 1), ("monotonic", 1), ("process_time", 1), ("thread_time", 1),
                            ("time_ns", 10 ** 9), ("perf_counter_ns", 10 ** 9), ("monotonic_ns", 10 ** 9), ("process_time_ns", 10 ** 9)):
            real = getattr(time, name)

            def read(real=real, scale=scale):
                v = _Clock.virtual
                if v is None:
                    return real()
                return v() if scale == 1 else int(v() * scale)
            setattr(time, name, read)


clock = _Clock
clock.install()                        # before /repo's modules can bind a clock function by name

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import shapely  # noqa: E402
import shapely.geometry  # noqa: E402
import shapely.ops  # noqa: E402
import shapely.affinity  # noqa: E402,F401
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

plt.show = lambda *a, **k: None
np.seterr(all="ignore")

IMPORT_ERROR = None
try:
    import utils  # noqa: E402
    import obstacles  # noqa: E402
    import starshaped_hull  # noqa: E402

    for _m in (utils, obstacles, starshaped_hull):
        if not os.path.realpath(_m.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise ImportError("%s comes from %s, not from %s" % (_m.__name__, _m.__file__, REPO))
except Exception as _e:                # reported as an error of the check, not as a violation
    IMPORT_ERROR = _e
    raise
