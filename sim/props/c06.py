"""A finalized cache is durable and immutable: no later operation or fault changes what it holds."""
import os

from sim import tasks
from sim.util import Invalid, Violation, attempt, canon, expect_same, same
from . import _ev as E
from . import _faulty as F

OPS = ["report", "section", "datums", "filter", "filter", "filter_onto", "filter_onto", "create", "create", "load", "restart", "restart",
       "read_fault", "write_fault", "crash", "crash", "finalize_again", "raw_create", "other",
       "alien_create", "alien_filter", "load_override", "load_override"]


def generate(rng, idx, tier):
    sc = F.gen_work(rng, tier)
    T = tasks.get(sc["task"])
    sc["specs"] = [T.gen_filter(rng, sc["data"]) for _ in range(3)]
    sc["ops"] = [[rng.choice(OPS), rng.randrange(1000), rng.randrange(1000)] for _ in range(rng.randint(3, 12 if tier == "quick" else 25))]
    sc["other"] = T.gen(rng, n=rng.choice([1, 2, 3]))
    sc["cfg2"] = E.gen_cfg(rng)
    alien = rng.choice([t for t in ("clf", "od", "seg") if t != sc["task"]])
    A = tasks.get(alien)
    adata = A.gen(rng, n=rng.choice([1, 2]))
    sc["alien"] = {"task": alien, "data": adata, "spec": A.gen_filter(rng, adata)}
    return sc


def execute(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg = sc["data"], sc["P"], sc["cfg"]
    E.need(data)
    E.need(sc["other"])
    E.check_params(P)
    M = T.Model(data)
    OM = T.Model(sc["other"])
    if not M.labels or M.empty or not OM.labels or OM.empty:
        raise Invalid("labels")
    A = tasks.get(sc["alien"]["task"])
    E.need(sc["alien"]["data"])
    AM = A.Model(sc["alien"]["data"])
    if not AM.labels or AM.empty:
        raise Invalid("labels")
    alien = None
    sections = E.SECTIONS[sc["task"]] + (["roc"] if sc["task"] == "clf" and M.dense else [])
    fsec = [s for s in sections if s != "roc"]
    want = canon(M.report(P, sections))
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    E.check_cfg(cfg)
    path = os.path.join(d, cfg["name"])
    ld = T.loader(data, cfg, path)
    E.add_all(T, ld, data, sc["chunks"])
    e = T.finalize(ld, cfg)
    before = E.files(path)
    expect_same("wrong result", T.report(e, P, sections), want)
    n = 0

    def new():
        nonlocal n
        n += 1
        return os.path.join(d, f"out{n}")

    def check(i, op, how="report"):
        x = E.diff_files(before, E.files(path))
        if x:
            raise Violation("a finalized cache was modified", f"op {i} {op}: {x}")
        if how == "report":
            expect_same("a finalized cache answers differently", T.report(e, P, sections), want, f"op {i} {op}:")
        elif how == "restart":
            r = E.after_restart(ctx, sc["task"], path, P, sections)
            ctx.fired("process_restart")
            if "error" in r:
                raise Violation("a finalized cache cannot be loaded", f"op {i} {op}: {r}")
            expect_same("a finalized cache answers differently after restart", r["ok"], want, f"op {i} {op}:")

    for i, (op, a, b) in enumerate(sc["ops"]):
        spec = sc["specs"][a % len(sc["specs"])] if sc["specs"] else {}
        FM = M.filtered(spec)
        if op == "report":
            check(i, op)
        elif op == "section":
            s = sections[a % len(sections)]
            expect_same("a finalized cache answers differently", T.report(e, P, [s]), {s: want[s]}, f"op {i} {op}:")
        elif op == "datums" and spec.get("datums") is not None:
            E.expect_report("wrong datum subset", T, e, M, P, fsec, f"op {i} {op}:", spec["datums"])
        elif op == "filter":
            o = attempt(T.filter_, e, spec, new())
            if o.ok != (not FM.empty):
                raise Violation("filter outcome differs from the data", f"op {i}: {o!r} but empty={FM.empty}")
            check(i, op, "bytes")
        elif op == "filter_onto":
            # onto itself, or onto another finalized cache
            o = attempt(T.filter_, e, spec, path)
            if o.ok:
                raise Violation("a filter wrote over an existing cache", f"op {i}")
            check(i, op)
            ctx.count("refused_overwrite")
        elif op == "create":
            o = attempt(T.loader, sc["other"], sc["cfg2"], path)
            if o.ok:
                raise Violation("a new cache was created over a finalized one", f"op {i}")
            del o
            check(i, op)
            ctx.count("refused_overwrite")
        elif op == "alien_create":
            # a loader of another task type on the path of this cache
            o = attempt(A.loader, sc["alien"]["data"], sc["cfg2"], path)
            if o.ok:
                raise Violation("a cache of another task type was created over a finalized one", f"op {i} {sc['alien']['task']}")
            del o
            check(i, op, "restart" if a % 3 == 0 else "report")
            ctx.count("refused_overwrite")
        elif op == "alien_filter":
            if alien is None:
                alien = E.build(A, sc["alien"]["data"], {**sc["cfg2"], "mem": False}, [1], new())
            o = attempt(A.filter_, alien, sc["alien"]["spec"], path)
            if o.ok:
                raise Violation("a cache of another task type was filtered onto a finalized one", f"op {i} {sc['alien']['task']}")
            del o
            check(i, op, "restart" if a % 3 == 0 else "report")
            ctx.count("refused_overwrite")
        elif op == "load_override":
            # opening with label names given, possibly killed while doing so
            names = E.label_map(path)
            ctx.collect()
            ctx.disk.arm(d, sc["io"])
            if a % 3:
                ctx.disk.add_fault({"at": b % 4, "kind": ["crash", "torn"][a % 2], "errno": 5, "permille": (a * 7 + b) % 1001})
            o = attempt(T.load, path, {int(k): v for k, v in names.items()})
            dead, hit = ctx.disk.dead, bool(ctx.disk.fired())
            ctx.collect()
            ctx.disk.heal()
            ctx.disk.disarm()
            ctx.disk.arm(d, sc["io"])
            if not o.ok and not hit:
                raise Violation("a finalized cache cannot be loaded", f"op {i} {op}: {o!r}")
            if o.ok and not dead:
                e = o.value
            del o
            check(i, op, "restart" if dead else "report")
        elif op == "raw_create":
            from valor_lite.cache import FileCacheWriter
            import pyarrow as pa

            subs = sorted(x for x in os.listdir(path) if os.path.isdir(os.path.join(path, x)))
            o = attempt(FileCacheWriter.create, path=os.path.join(path, subs[a % len(subs)]), schema=pa.schema([("x", pa.int64())]),
                        batch_size=1, rows_per_file=1)
            if o.ok:
                raise Violation("a new cache was created over a finalized one", f"op {i} raw")
            check(i, op, "bytes")
        elif op == "load":
            e = T.load(path)
            check(i, op)
        elif op == "restart":
            check(i, op, "restart")
        elif op == "finalize_again" and sc["task"] != "seg" and ld is not None:
            o = attempt(T.finalize, ld, cfg)
            if o.ok:
                raise Violation("a cache was finalized twice", f"op {i}")
            check(i, op)
        elif op == "other":
            # unrelated work next to the cache
            p2 = new()
            e2 = E.build(T, sc["other"], {**sc["cfg2"], "mem": False}, [1, 2], p2)
            expect_same("wrong result of a second cache", T.report(e2, P, fsec), canon(OM.report(P, fsec)), f"op {i}:")
            check(i, op)
        elif op == "read_fault":
            names = sorted(k for k in before if not k.endswith(os.sep))
            ctx.disk.readfail(os.path.realpath(os.path.join(path, names[a % len(names)])), [5, 13, 24][b % 3], [0, 64, 4096][b % 3], b % 2)
            o = attempt(T.report, e, P, sections)
            ctx.disk.heal()
            ctx.collect()
            ctx.disk.arm(d, sc["io"])
            if o.ok:
                expect_same("a finalized cache answers differently", o.value, want, f"op {i} {op}:")
            check(i, op)
        elif op in ("write_fault", "crash"):
            ctx.collect()
            ctx.disk.arm(d, sc["io"])
            if op == "write_fault" and a % 4 == 0:
                ctx.disk.rfault(b % 90, [5, 24, 13][b % 3])
            else:
                ctx.disk.add_fault({"at": b % 60, "kind": "crash" if op == "crash" else ["err", "sticky", "torn"][a % 3], "errno": [5, 28, 13][b % 3], "permille": a})
            fp = new()
            o = attempt(T.filter_, e, spec, fp)
            c = attempt(T.loader, sc["other"], sc["cfg2"], path) if b % 2 else None
            if c is not None and c.ok and not ctx.disk.dead:
                raise Violation("a new cache was created over a finalized one", f"op {i}")
            del o, c
            ctx.collect()
            ctx.disk.heal()
            ctx.disk.disarm()
            ctx.disk.arm(d, sc["io"])
            if op == "crash":
                check(i, op, "restart")
                ld = None
                e = T.load(path)
            check(i, op)
        ctx.runs += 1
        ctx.log(op)
    check("end", "restart", "restart")
    ctx.collect()
    ctx.log(want, ctx.io_digest())
    ctx.nontrivial = len(sc["ops"]) >= 3
