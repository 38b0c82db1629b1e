"""Build histories with a faulty disk; used by C04 and C05."""
from sim import tasks
from sim.util import Invalid
from . import _ev as E

ERRNOS = [5, 28, 122, 13, 24]


def gen_work(rng, tier="quick"):
    task = rng.choice(["clf", "clf", "od", "seg"])
    T = tasks.get(task)
    data = T.gen(rng, n=rng.choice([1, 2, 3, 4, 6, 9]))
    cfg = E.gen_cfg(rng)
    cfg["mem"] = False
    P = T.gen_params(rng)
    for k in P:
        P[k] = P[k][:1]
    return {"task": task, "data": data, "cfg": cfg, "P": P, "chunks": E.gen_chunks(rng, len(data["datums"])), "io": E.gen_io(rng)}
