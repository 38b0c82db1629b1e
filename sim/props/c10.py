"""Segmentation metrics."""
from . import _metrics

SEC = ["info", "pr", "cm"]


def generate(rng, idx, tier):
    return _metrics.generate("seg", SEC, rng, idx, tier)


execute = _metrics.execute
