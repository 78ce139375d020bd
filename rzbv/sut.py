"""Access to the code under test: always the working tree of /repo.

(RZBV_REPO redirects to a scratch copy; only used while developing the checks,
to run them on mutated copies.)
"""
import os
import pathlib
import sys
import warnings

REPO = pathlib.Path(os.environ.get("RZBV_REPO", "/repo")).resolve()
SRC = REPO / "src"
sys.path.insert(0, str(SRC))

warnings.simplefilter("ignore")

import razorback as rzb  # noqa: E402

if not pathlib.Path(rzb.__file__).resolve().is_relative_to(SRC):
    raise ImportError(f"razorback imported from {rzb.__file__}, not {SRC}")

from razorback import SignalSet, SyncSignal, Tags, Inventory  # noqa: E402,F401
