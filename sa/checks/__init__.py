"""Check registry: property id -> function(ctx)."""
import importlib

MODULES = ["wire", "transport", "waiters", "gateway", "application", "node", "commands", "storage", "mailbox", "util", "program"]
CHECKS = {}


def check(pid, **meta):
    def deco(fn):
        CHECKS[pid] = fn
        fn.meta = meta
        return fn

    return deco


def load():
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODULES:
        if os.path.exists(os.path.join(here, m + ".py")):
            importlib.import_module("sa.checks." + m)
    return CHECKS
