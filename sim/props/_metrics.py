"""C08, C09, C10, C12: metrics refine the reference model for every history."""
from sim import tasks
from sim.util import Invalid, Violation, canon, expect_same
from . import _ev as E


def generate(task, sections, rng, idx, tier, dense=None):
    T = tasks.get(task)
    n = None
    if tier == "thorough" and rng.random() < 0.1:
        n = rng.choice([25, 40])
    data = T.gen(rng, n=n, dense=dense)
    cfg = E.gen_cfg(rng)
    if idx % 97 == 13:  # many small files
        data = T.gen(rng, n=rng.choice([30, 45]), dense=dense)
        cfg.update(batch=1, rows=1, mem=False)
    elif idx % 61 == 7:  # many datums, annotations or pixels
        data = T.gen(rng, dense=dense, big=True)
        cfg = E.gen_cfg(rng, big=True)
    pad = None
    if idx % 700 in (123, 124) and (task == "od" or task == "clf" and "pr" in sections):  # ids beyond 16 bits
        pad = [rng.choice([33000, 66000]) if task == "od" else 33000, rng.choice(["datums", "annotations"] if "pr" in sections else ["annotations"])]
        data = T.gen(rng, n=3, dense=True)
        cfg = {**E.gen_cfg(rng), "batch": 1000, "rows": 100000, "fin": 1000}
    sc = {"task": task, "data": data, "P": T.gen_params(rng), "cfg": cfg, "cfg2": E.gen_cfg(rng, big=idx % 61 == 7),
            "chunks": E.gen_chunks(rng, len(data["datums"])), "io": E.gen_io(rng),
            "ops": [rng.choice(["report", "report", "section", "restart", "restart", "load", "datums", "again", "rebuild", "counts"])
                    for _ in range(rng.randint(1, 4))],
            "exprs": [T.gen_filter(rng, data, ("datums",))["datums"] for _ in range(2)], "specs": [T.gen_filter(rng, data) for _ in range(2)], "sections": sections, "pad": pad}
    if idx % 97 == 13 and len(data["datums"]) >= 25:  # long selections that differ in one datum
        u = [d["uid"] for d in data["datums"]]
        a, b = rng.sample(u[11:-11], 2)
        sc["exprs"] = [["in", "datum_uid", u[:11] + x + u[-11:]] for x in ([a], rng.choice([[b], [a, b]]))]
        sc["ops"] = ["datums", "datums", rng.choice(["report", "load", "datums"])]
    if task == "seg" and idx % 700 == 250:
        data = T.gen_huge(rng)
        sc.update(data=data, chunks=[1], ops=rng.sample(["section", "counts", "datums"], 1), specs=[T.gen_filter(rng, data) for _ in range(2)])
        sc["exprs"] = [T.gen_filter(rng, data, ("datums",))["datums"] for _ in range(2)]
    if pad:
        sc["ops"] = [rng.choice(["section", "datums"])]
        for k in sc["P"]:
            sc["P"][k] = sc["P"][k][:1]
    return sc


def execute(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg = sc["data"], sc["P"], sc["cfg"]
    E.need(data)
    E.check_params(P)
    if sc.get("pad"):
        data = T.padded(data, *sc["pad"])
        ctx.count("ids_beyond_16_bits")
    M = T.Model(data)
    if not M.labels:
        raise Invalid("no labels")
    sections = [s for s in sc["sections"] if s != "roc" or (sc["task"] == "clf" and M.dense)]
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    path = E.where(cfg, d)
    e = E.build(T, data, cfg, sc["chunks"], path)
    want = canon(M.report(P, sections))
    ctx.count("rows_or_datums", len(data["datums"]))
    first = None
    for i, op in enumerate(["report"] + sc["ops"]):
        if op in ("report", "again"):
            got = T.report(e, P, sections)
            expect_same("metrics differ from the reference", got, want, f"op {i} {op}:")
        elif op == "section":
            s = sections[(i * 7 + len(data["datums"])) % len(sections)]
            expect_same("metrics differ from the reference", T.report(e, P, [s]), {s: want[s]}, f"op {i} {op} {s}:")
        elif op == "datums":
            ex = sc["exprs"][i % len(sc["exprs"])] if sc["exprs"] else None
            if ex is not None:
                secs = [s for s in sections if s != "roc"]
                E.expect_report("metrics of a datum subset differ from the reference", T, e, M, P, secs, f"op {i} {ex}:", ex)
                ctx.count("datum_subsets")
        elif op == "counts":
            sp = sc["specs"][i % len(sc["specs"])] if sc["specs"] else None
            if sp is not None and sc["task"] != "clf" and "info" in sections:
                expect_same("counts over a selection differ from the reference", T.counts(e, sp), M.counts(sp), f"op {i} {sp}:")
                ctx.count("count_selections")
        elif op == "load" and path:
            e = T.load(path)
            expect_same("metrics differ after reopening the cache", T.report(e, P, sections), want, f"op {i} {op}:")
            ctx.count("reopened")
        elif op == "restart" and path:
            r = E.after_restart(ctx, sc["task"], path, P, sections)
            if "error" in r:
                raise Violation("finalized cache cannot be loaded after restart", f"{r['error']}: {r['msg']}")
            expect_same("metrics differ after restart", r["ok"], want, f"op {i} {op}:")
            ctx.fired("process_restart")
        elif op == "rebuild":
            d2 = ctx.fresh()
            ctx.collect()
            ctx.disk.arm(d2, sc["io"])
            ctx.tempdir(d2)
            e2 = E.build(T, data, sc["cfg2"], [len(data["datums"])], E.where(sc["cfg2"], d2))
            expect_same("metrics depend on layout or history", T.report(e2, P, sections), want, f"op {i} {op}:")
            ctx.count("rebuilt_with_other_layout")
            ctx.collect()
            ctx.disk.arm(d, sc["io"])
        ctx.log(op)
    if sc["task"] == "clf" and "pr" in sc["sections"] and not M.dense and path is not None:
        # sparse predictions: the ROC value is only required not to depend on layout (see known findings)
        a = T.report(e, P, ["roc"])
        ed = E.build(T, data, {**cfg, "batch": 1000}, [len(data["datums"])], None)
        expect_same("ROC depends on layout", a, T.report(ed, P, ["roc"]), "file vs memory:")
    ctx.collect()
    ctx.log(want, ctx.io_digest() if path else "mem", sc["chunks"])
    ctx.nontrivial = len(data["datums"]) >= 2 and bool(path or len(sc["ops"]) > 1)
