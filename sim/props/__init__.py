import importlib


def get(name):
    return importlib.import_module(f"sim.props.{name.lower()}")
