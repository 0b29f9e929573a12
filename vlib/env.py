"""Process set-up shared by every check (imported before numpy)."""
import os
import sys

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, REPO)
# hypothesis comes from the tooling venv; appended last so that numpy, scipy
# and numpy-stl are those of the interpreter the project is built for
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import machup  # noqa: E402
import machup.MU  # noqa: E402

if not os.path.realpath(machup.__file__).startswith(os.path.realpath(REPO) + os.sep):
    sys.stderr.write("harness error: machup imported from %s\n" % machup.__file__)
    sys.exit(2)
