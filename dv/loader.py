"""Loading of the contracts of /verif/specs."""
import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(only=None):
    from . import repo
    sys.setrecursionlimit(20000)
    repo.setup()
    from . import spec, models, loops, floats, flags, dates      # noqa: F401
    sd = os.path.join(VERIF, "specs")
    if sd not in sys.path:
        sys.path.insert(0, sd)
    for n in sorted(os.listdir(sd)):
        if n.endswith(".py") and n[0] != "_" and (only is None or n[:-3] in only):
            importlib.import_module(n[:-3])
    return spec.CONTRACTS
