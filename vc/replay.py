"""Turns a solver counterexample into cases of the property's oracle (run on the plain code)."""
import importlib


def cases(prop, contract, failure):
    try:
        m = importlib.import_module("contracts.replay_" + prop)
    except ImportError:
        return []
    try:
        return m.cases(contract, failure["inputs"]) or []
    except Exception:
        return []
