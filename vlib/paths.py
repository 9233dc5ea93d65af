"""Paths of the sandbox and of the third party tools."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EXTRA = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    """hypothesis is only in the tooling venv: it goes at the end of the path, so
    that numpy, sympy... remain those of the environment of pylbm."""
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(1, REPO)
    if EXTRA not in sys.path:
        sys.path.append(EXTRA)
    sys.argv = sys.argv[:1]  # pylbm parses sys.argv when it is imported
