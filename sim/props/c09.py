"""Object detection metrics."""
from . import _metrics

SEC = ["info", "pr"]


def generate(rng, idx, tier):
    return _metrics.generate("od", SEC, rng, idx, tier)


execute = _metrics.execute
