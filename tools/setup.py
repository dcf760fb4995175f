"""Nothing has to be built: checks that the code under test and Hypothesis
can be imported by the interpreter the checks use."""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: E402
import hypothesis  # noqa: E402

print("mpopt:", env.MP_FILE, "hypothesis:", hypothesis.__version__)
