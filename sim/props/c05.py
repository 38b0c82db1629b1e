"""Crash at any instant of building or filtering: after restart a cache is complete or refused."""
import os

from sim import tasks
from sim.util import Invalid, Violation, attempt, canon, same
from . import _ev as E
from . import _faulty as F


def generate(rng, idx, tier):
    sc = F.gen_work(rng, tier)
    T = tasks.get(sc["task"])
    sc["spec"] = T.gen_filter(rng, sc["data"])
    sc["crashes"] = [{"phase": rng.choice(["create", "add", "finalize", "finalize", "finalize", "filter", "filter", "filter", "after"]),
                      "permille": rng.choice([0, 999, 998, rng.randrange(1000), rng.randrange(1000), rng.randrange(1000)]), "cut": rng.randrange(1001), "edge": rng.random() < 0.6}
                     for _ in range(rng.randint(3, 7))]
    return sc


def execute(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg, chunks, spec = sc["data"], sc["P"], sc["cfg"], sc["chunks"], sc["spec"]
    E.need(data)
    E.check_params(P)
    M = T.Model(data)
    if not M.labels or M.empty:
        raise Invalid("labels")
    FM = M.filtered(spec)
    sections = E.SECTIONS[sc["task"]] + (["roc"] if sc["task"] == "clf" and M.dense else [])
    fsec = [s for s in sections if s != "roc"]
    want = canon(M.report(P, sections))
    fwant = canon(FM.report(P, fsec)) if not FM.empty else None
    override = {}
    marks = {}
    log = []

    def run(crash):
        d = ctx.fresh()
        ctx.tempdir(d)
        ctx.disk.arm(d, sc["io"])
        at = None
        if crash is not None:
            if crash["phase"] not in marks:
                return
            lo, hi = marks[crash["phase"]]
            if hi <= lo:
                return
            at = lo + crash["permille"] * (hi - lo) // 1000
            if crash["edge"]:  # where a file or directory appears, disappears or is complete
                edges = [i for i in range(lo, min(hi, len(log))) if not log[i].startswith("write ")]
                edges = sorted({*edges, *(i + 1 for i in edges if i + 1 < hi)}) or [at]
                at = edges[crash["permille"] * len(edges) // 1000]
            ctx.disk.add_fault({"at": at, "kind": "crash", "permille": min(1000, crash["cut"])})
        ctx.runs += 1
        E.check_cfg(cfg)
        path, fpath = os.path.join(d, cfg["name"]), os.path.join(d, "filtered")
        state = {"finalized": False, "filtered": False}

        def life():
            def mark(name, fn):
                a = ctx.disk.events
                v = fn()
                if crash is None:
                    marks[name] = (a, ctx.disk.events)
                return v

            ld = mark("create", lambda: T.loader(data, cfg, path))
            mark("add", lambda: E.add_all(T, ld, data, chunks))
            e = mark("finalize", lambda: T.finalize(ld, cfg))
            if not ctx.disk.dead:
                state["finalized"] = True
            if fwant is not None:
                mark("filter", lambda: T.filter_(e, spec, fpath))
                if not ctx.disk.dead:
                    state["filtered"] = True
            mark("after", lambda: T.report(e, P, ["info"]))

        o = attempt(life)
        if crash is None and not o.ok:
            raise o.error
        ctx.collect()
        dead = ctx.disk.dead
        ctx.log(crash, ctx.io_digest())
        del o
        if crash is None:
            log.extend(ctx.disk.log())
            override.update(E.label_map(path))
        # the process is gone; only what reached the disk remains
        r = E.after_restart(ctx, sc["task"], path, P, sections)
        ctx.fired("process_restart")
        if "ok" in r:
            x = same(r["ok"], want)
            if x:
                raise Violation("an incomplete cache loads after a crash", f"crash in {crash}: {x}")
            ctx.count("complete_after_crash" if dead else "complete")
        elif state["finalized"]:
            raise Violation("a finalized cache is lost after a crash", f"crash in {crash}: {r}")
        else:
            ctx.count("refused_after_crash")
        if fwant is not None and os.path.exists(fpath):
            r = E.after_restart(ctx, sc["task"], fpath, P, fsec, override)
            if "ok" in r:
                x = same(r["ok"], fwant)
                if x:
                    raise Violation("an incomplete filtered cache loads after a crash", f"crash in {crash}: {x}")
                ctx.count("filter_complete_after_crash" if dead else "filter_complete")
            elif state["filtered"]:
                raise Violation("a filtered cache is lost after a crash", f"crash in {crash}: {r}")
            else:
                ctx.count("filter_refused_after_crash")

    run(None)
    for c in sc["crashes"]:
        run(c)
    ctx.nontrivial = True
