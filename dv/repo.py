"""Loading the code under verification from the working tree."""
from __future__ import annotations
import contextlib
import importlib
import io
import logging
import os
import sys
import types
from . import interp

REPO = os.environ.get("DV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "src.DLMS_SPODES"
_done = False


def setup():
    """make the package importable module by module (its __init__ cannot be imported on this commit)"""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    sys.path.insert(0, REPO)
    interp.ROOTS.append(SRC)
    cwd = os.getcwd()
    try:
        os.chdir(os.path.join(REPO, "test"))
        with contextlib.redirect_stdout(io.StringIO()):
            import src  # noqa: F401
            pkg = types.ModuleType(PKG)
            pkg.__path__ = [os.path.join(SRC, "DLMS_SPODES")]
            sys.modules[PKG] = pkg
            sys.modules["src"].DLMS_SPODES = pkg
            importlib.import_module(PKG + ".config_parser")
    finally:
        os.chdir(cwd)
    logging.disable(logging.CRITICAL)


def repo(name):
    setup()
    cwd = os.getcwd()
    try:
        os.chdir(os.path.join(REPO, "test"))
        with contextlib.redirect_stdout(io.StringIO()):
            return importlib.import_module(PKG + "." + name)
    finally:
        os.chdir(cwd)
