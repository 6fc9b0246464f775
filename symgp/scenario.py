"""Registry of scenarios: the programs over the real API whose assertions are decided."""

import functools
import importlib

REGISTRY = {}


class Scenario:
    def __init__(self, prop, fn, quick, thorough, budget, bounds):
        self.prop, self.fn, self.name = prop, fn, fn.__name__
        self.quick, self.thorough = list(quick), list(thorough)
        self.budget, self.bounds = budget, bounds

    def params(self, tier):
        if tier == "quick":
            return self.quick
        return self.quick + [p for p in self.thorough if p not in self.quick]


def scenario(prop, quick=((),), thorough=(), budget=None, bounds="", jitter=False):
    """Register a scenario for a property.

    Args:
        prop (str): Property.
        quick (list): Parameters (the sizes) to decide in the quick tier.
        thorough (list): Additional parameters for the thorough tier.
        budget (float): Time limit in seconds per parameter setting.
        bounds (str): What is bounded, in words.
        jitter (bool): Nothing may depend on the constant that is added to diagonals for
            numerical stability: let it be arbitrary.
    """

    def deco(fn):
        if jitter:
            inner = fn

            @functools.wraps(inner)
            def fn(env):
                with env.jitter():
                    inner(env)

        REGISTRY.setdefault(prop, []).append(Scenario(prop, fn, quick, thorough, budget, bounds))
        return fn

    return deco


def load(prop):
    importlib.import_module(f"symgp.checks.{prop.lower()}")
    return REGISTRY[prop]


def find(prop, name):
    for s in load(prop):
        if s.name == name:
            return s
    raise KeyError(name)
