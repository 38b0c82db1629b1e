"""Filtering equals evaluating the filtered data from scratch, and leaves the source alone."""
import os

from sim import tasks
from sim.util import Invalid, Violation, attempt, canon, expect_same
from . import _ev as E


def generate(rng, idx, tier):
    task = rng.choice(["clf", "od", "od", "seg"])
    T = tasks.get(task)
    if idx % 40 == 9:
        return gen_rare(rng, task, T)
    data = T.gen(rng, n=rng.choice([1, 2, 3, 5, 8, 12] + ([25] if tier == "thorough" else [])))
    return {"task": task, "data": data, "P": T.gen_params(rng), "cfg": E.gen_cfg(rng), "chunks": E.gen_chunks(rng, len(data["datums"])),
            "io": E.gen_io(rng), "reload": rng.random() < 0.3,
            "steps": [{"spec": T.gen_filter(rng, data), "from": rng.choice([-1, -1, 0, rng.randrange(4)]), "batch": rng.choice([None, 1, 2, 5]),
                       "restart": rng.random() < 0.4, "reload": rng.random() < 0.3} for _ in range(rng.randint(1, 4))]}


def gen_rare(rng, task, T):
    """A few out of many rows of a file."""
    data = T.gen(rng, n=60 if task != "clf" else 90, meta=False)
    cfg = {**E.gen_cfg(rng), "rows": 10000, "batch": rng.choice([1000, 10000])}
    uids = [d["uid"] for d in data["datums"]]
    few = lambda: ["in", "datum_uid", rng.sample(uids, rng.choice([1, 1, 2, 3]))]  # noqa: E731
    specs = [{"datums": few()}, {"gts": few()}, {"pds": few()}, (lambda f: {"gts": f, "pds": f})(few())]
    steps = [{"spec": s, "from": 0, "batch": rng.choice([None, 5, 1000]),
              "restart": False, "reload": False} for s in rng.sample(specs, 3)]
    return {"task": task, "data": data, "P": T.gen_params(rng), "cfg": cfg, "chunks": E.gen_chunks(rng, len(uids)), "io": E.gen_io(rng), "reload": False, "steps": steps}


def execute(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg = sc["data"], sc["P"], sc["cfg"]
    E.need(data)
    E.check_params(P)
    M = T.Model(data)
    if not M.labels or M.empty:
        raise Invalid("labels")
    sec = E.SECTIONS[sc["task"]]
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    path = E.where(cfg, d)
    e = E.build(T, data, cfg, sc["chunks"], path)
    labels = E.label_map(path) if path else None
    if sc["reload"] and path:
        e = T.load(path)
    whole = canon(M.report(P, sec))
    nodes = [(e, M, path)]
    for i, st in enumerate(sc["steps"]):
        src, model, spath = nodes[st["from"] % len(nodes)]
        spec = st["spec"]
        before = E.files(spath) if spath else None
        fp = os.path.join(d, f"out {i}") if path else None
        FM = model.filtered(spec)
        o = attempt(T.filter_, src, spec, fp, st["batch"] if sc["task"] == "od" else None)
        ctx.runs += 1
        what = f"step {i} {spec} (batch {st['batch']}):"
        if spath:
            x = E.diff_files(before, E.files(spath))
            if x:
                raise Violation("filtering modified its source", f"{what} {x}")
        if FM.empty:
            if o.ok:
                # nothing left: an empty result has to be refused, or be empty throughout
                expect_same("an empty filter result is not empty", T.report(o.value, P, ["info"])["info"]["datums"], 0, what)
                continue
            if type(o.error).__name__ != "EmptyCacheError":
                raise Violation("an empty filter result raises something else", f"{what} {o!r}")
            if fp and attempt(T.load, fp, labels).ok:
                raise Violation("an empty filter result can be loaded", what)
            ctx.count("empty_filters")
            ctx.log(i, "empty")
            continue
        if not o.ok:
            raise Violation("filter failed although data is left", f"{what} {o!r}")
        f = o.value
        want = canon(FM.report(P, sec))
        expect_same("filtered metrics differ from evaluating the kept data", T.report(f, P, sec), want, what)
        if sc["task"] == "clf" and FM.dense:
            expect_same("filtered ROC differs from evaluating the kept data", T.report(f, P, ["roc"]), canon(FM.report(P, ["roc"])), what)
            ctx.count("filtered_roc")
        # a subset by datums only is the same as asking for these datums
        if set(k for k, v in spec.items() if v is not None) == {"datums"}:
            sub = {**want, "info": {k: v for k, v in want["info"].items() if k != "rows"}}
            expect_same("a datum filter differs from asking for these datums", T.report(src, P, sec, spec["datums"]), sub, what)
            ctx.count("datum_filters")
        if fp and st["restart"]:
            r = E.after_restart(ctx, sc["task"], fp, P, sec, labels)
            ctx.fired("process_restart")
            if "error" in r:
                raise Violation("a filtered cache cannot be loaded", f"{what} {r}")
            expect_same("a filtered cache answers differently after restart", r["ok"], want, what)
        if fp and st["reload"]:
            f = T.load(fp, labels)
        nodes.append((f, FM, fp))
        ctx.count(f"filtered_{'file' if fp else 'mem'}")
        if model is not M:
            ctx.count("filter_of_filter")
        ctx.log(i, want)
    for j, (x, m, _) in enumerate(nodes):
        expect_same("an evaluator changed after others were filtered from it", T.report(x, P, sec), canon(m.report(P, sec)), f"node {j}:")
    ctx.collect()
    ctx.log(whole, ctx.io_digest() if path else "")
    ctx.nontrivial = len(nodes) > 1
