"""Scenario registry: props/<ID>.py modules register with @scenario."""
import importlib, os, sys

SCEN = []
DEFAULT = [0]


class Scen:
    def __init__(self, fn, quick, thorough, budget):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.budget = budget


def scenario(quick=None, thorough=None, budget=60, views=None):
    """quick/thorough: list of parameter dicts (one exploration each).
    views: parameter dicts (or positions in quick) that are also explored with every input array a stepped and a reversed view."""
    quick = [{}] if quick is None else quick
    quick = quick + [dict(quick[p] if isinstance(p, int) else p, view=v) for p in (views if views is not None else DEFAULT) for v in (2, -1)]
    # thorough explores the quick instances as well as its own
    thorough = quick + [p for p in (thorough or []) if p not in quick]

    def deco(fn):
        SCEN.append(Scen(fn, quick, thorough, budget))
        return fn
    return deco


def load(pid):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, root)
    SCEN.clear()
    m = importlib.import_module("props." + pid)
    return m, list(SCEN)
