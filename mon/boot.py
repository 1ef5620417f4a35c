"""Loads SciDataTool from the working tree under test, in a fixed environment."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

warnings.filterwarnings("ignore")
logging.getLogger("matplotlib.font_manager").setLevel(logging.CRITICAL)

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import numpy as np  # noqa: E402

np.seterr(all="ignore")
np.set_printoptions(precision=6, threshold=40, linewidth=140)

import SciDataTool  # noqa: E402

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

_src = os.path.realpath(SciDataTool.__file__)
if not _src.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("harness error: SciDataTool loaded from %s" % _src)
