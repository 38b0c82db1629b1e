"""Classification metrics."""
from . import _metrics
from sim import tasks
from sim.tasks.common import key
from sim.util import Violation

SEC = ["info", "pr", "roc"]


def generate(rng, idx, tier):
    # dense predictions exercise the ROC curve
    sc = _metrics.generate("clf", SEC, rng, idx, tier, dense=rng.random() < 0.6)
    if idx == 0:
        sc["known"] = True
    if idx == 5 and tier == "thorough":
        sc["labels"] = 100_000 + rng.randrange(5, 50)
    return sc


def execute(sc, ctx):
    _metrics.execute(sc, ctx)
    if sc.get("known"):
        _f3(ctx)
    if sc.get("labels"):
        _many_labels(sc["labels"], ctx)


def _many_labels(n, ctx):
    """Neighbouring labels stay apart however many there are."""
    T = tasks.get("clf")
    names = [f"l{i}" for i in range(n)]
    data = {"task": "clf", "meta": False, "fields": [], "datums": [
        {"uid": "a", "g": names[0], "p": names, "s": [0.0] * n, "m": None},
        {"uid": "b", "g": names[-1], "p": [names[-2]], "s": [0.9], "m": None}]}
    ld = T.loader(data, {"batch": 10_000})
    T.add(ld, T.items(data))
    r = T.report(T.finalize(ld, {}), {"thr": [0.5], "hardmax": [False]}, ["pr"])["pr"]
    for l, w in ((names[-1], {"tp": 0, "fp": 0, "fn": 1}), (names[-2], {"tp": 0, "fp": 1, "fn": 0})):
        got = r[key("Counts", label=l, score_threshold=0.5, hardmax=False)]
        if {k: got[k] for k in w} != w:
            raise Violation("labels are taken for one another", f"{l} of {n}: {got}")
    ctx.count("many_labels")


def _f3(ctx):
    """Known finding F3: one specific sparse input whose ROC area exceeds 1."""
    T = tasks.get("clf")
    data = {"task": "clf", "meta": False, "fields": [], "datums": [
        {"uid": "0", "g": "a", "p": ["a"], "s": [0.9], "m": None},
        {"uid": "1", "g": "a", "p": ["a"], "s": [0.8], "m": None},
        {"uid": "2", "g": "a", "p": ["b"], "s": [0.8], "m": None},
        {"uid": "3", "g": "b", "p": ["a"], "s": [0.3], "m": None},
        {"uid": "4", "g": "b", "p": ["a"], "s": [0.2], "m": None}]}
    ld = T.loader(data, {"batch": 100})
    T.add(ld, T.items(data))
    r = T.report(T.finalize(ld, {}), {"thr": [0.5], "hardmax": [True]}, ["roc"])["roc"]
    if any(not (0.0 <= v <= 1.0) for v in r.values()):
        ctx.count("known_F3")
