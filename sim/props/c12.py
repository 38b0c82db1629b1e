"""Confusion matrices and examples: refine the model and agree with each other."""
import json
import random

from sim import tasks
from sim.util import Violation
from . import _ev as E
from . import _metrics

SEC = ["cm", "ex", "cmx"]


def generate(rng, idx, tier):
    return _metrics.generate(rng.choice(["clf", "od", "od"]), SEC, rng, idx, tier)


def execute(sc, ctx):
    _metrics.execute(sc, ctx)
    # the three views of one evaluator agree, whatever the reference says
    T = tasks.get(sc["task"])
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    e = E.build(T, sc["data"], sc["cfg2"], sc["chunks"], E.where(sc["cfg2"], d))
    r = T.report(e, sc["P"], SEC + ["info"])
    for k, v in r["cm"].items():
        kx = k.replace("ConfusionMatrix ", "ConfusionMatrixWithExamples ", 1)
        x = r["cmx"].get(kx)
        if x is None:
            raise Violation("a confusion matrix has no counterpart with examples", k)
        for part in v:
            for a, c in _cells(v[part]):
                cx = _at(x[part], a)
                if cx["count"] != c:
                    raise Violation("the confusion matrix and its examples disagree", f"{k} {part} {a}: {c} and {cx['count']}")
                if len(cx["examples"]) != c:
                    raise Violation("a confusion matrix cell lists other examples than it counts", f"{kx} {part} {a}: {c} and {cx['examples']}")
    ctx.collect()


def _cells(x, pre=()):
    for k, v in x.items():
        if isinstance(v, dict):
            yield from _cells(v, pre + (k,))
        else:
            yield pre + (k,), v


def _at(x, path):
    for k in path:
        x = x[k]
    return x
