"""property id -> (rule, level, explanation)"""
import importlib

MODULES = ["qp", "qp2", "nls", "res", "rec", "trc", "xq", "trm"]
from .explain import EXPLAIN


def table():
    t = {}
    for m in MODULES:
        mod = importlib.import_module("sa.rules." + m)
        for k, f in mod.RULES.items():
            t[k] = (f, getattr(mod, "LEVELS", {}).get(k, "proof"), EXPLAIN[k])
    return t


def get(pid):
    return table()[pid]


def notes(pid):
    for m in MODULES:
        mod = importlib.import_module("sa.rules." + m)
        if pid in mod.RULES:
            return getattr(mod, "NOTES", {}).get(pid), getattr(mod, "TECH", {}).get(pid)
    return None, None
