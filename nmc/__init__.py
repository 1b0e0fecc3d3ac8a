"""nmc: bounded-exhaustive model checking of LSSTDESC/NaMaster."""
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NMC_REPO", "/repo")
