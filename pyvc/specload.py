"""import every spec module (same files under CPython and PyPy)"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop=None):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    d = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("specs." + f[:-3])
    from . import api
    return [h for h in api.HARNESSES if prop is None or h.prop == prop]
