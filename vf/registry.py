"""property id -> sub-checks."""
import importlib


def module(prop):
    return importlib.import_module(f"vf.props.{prop.lower()}")


def subs(prop):
    return {s.name: s for s in module(prop).SUBS}


def meta(prop):
    return getattr(module(prop), "META", {})
