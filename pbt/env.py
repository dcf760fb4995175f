"""Imports of the code under test (from the repository's working tree) and of
the property-testing library.  Everything here is per process."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
HYP_DIRS = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]


def setup_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        for d in HYP_DIRS:
            if os.path.isdir(os.path.join(d, "hypothesis")) and d not in sys.path:
                # appended: the repository's own packages take precedence
                sys.path.append(d)


setup_paths()
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import casadi as ca  # noqa: E402
from mpopt import mp  # noqa: E402

MP_FILE = os.path.abspath(mp.__file__)
MP_DIR = os.path.dirname(MP_FILE)
