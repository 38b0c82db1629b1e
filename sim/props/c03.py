"""Pagination of examples partitions the datums."""
import os

from sim import tasks
from sim.util import Invalid, Violation, canon, expect_same
from . import _ev as E


def generate(rng, idx, tier):
    task = rng.choice(["clf", "clf", "od"])
    T = tasks.get(task)
    data = T.gen(rng, n=rng.choice([1, 2, 3, 5, 8, 12, 20, 26]))
    n = len(data["datums"])
    P = T.gen_params(rng)
    P["thr"] = P["thr"][:2]
    cfg = E.gen_cfg(rng)
    if idx % 37 == 5:
        cfg.update(mem=False, rows=1, batch=1)
    pages = []
    for _ in range(rng.randint(2, 6)):
        pages.append([rng.choice([None, 1, 1, 2, 3, 5, n, n + 3, 10000]), rng.choice([0, 0, 1, 2, 3, max(0, n - 1), n, n + 5, 10000])])
    return {"task": task, "data": data, "P": P, "cfg": cfg, "chunks": E.gen_chunks(rng, n), "io": E.gen_io(rng),
            "expr": T.gen_filter(rng, data, ("datums",))["datums"] if rng.random() < 0.6 else None,
            "pages": pages, "sweep": rng.choice([1, 2, 3, 4, 7, 1000]), "reload": rng.random() < 0.4, "presplit": rng.random() < 0.3}


def datum_order(keys):
    out = []
    for k in keys:
        u = k[len("Examples@"):].rsplit(" {", 1)[0]
        if not out or out[-1] != u:
            out.append(u)
    return out


def execute(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg = sc["data"], sc["P"], sc["cfg"]
    E.need(data)
    E.check_params(P)
    P = {**P, **({"hardmax": P["hardmax"][:1]} if "hardmax" in P else {})}
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    M = T.Model(data)
    path = E.where(cfg, d)
    e = E.build(T, data, cfg, sc["chunks"], path)
    if sc["reload"] and path:
        e = T.load(path)
    x = sc["expr"]
    F = M if x is None else M.filtered({"datums": x})
    if M.empty:
        raise Invalid("empty")
    uids = [u for _, u in T.datums_in_order(F)]
    if len(set(uids)) != len(uids):
        raise Invalid("uids")
    want = canon(F.report(P, ["ex"]))["ex"]
    per = {}
    for k, v in want.items():
        per.setdefault(k[len("Examples@"):].rsplit(" {", 1)[0], {})[k] = v

    def page(limit, offset):
        if limit == 0:
            raise Invalid("limit")
        got = T.examples_page(e, P, x, limit, offset)
        ctx.runs += 1
        order = datum_order(got)
        ref = uids[offset:] if limit is None else uids[offset:offset + limit]
        if sorted(order) != sorted(ref):
            raise Violation("a page holds other datums", f"limit={limit} offset={offset}: {order} expected {ref}")
        if order != ref:
            raise Violation("a page is out of order", f"limit={limit} offset={offset}: {order} expected {ref}")
        ref_m = {}
        for u in ref:
            ref_m.update(per[u])
        expect_same("examples on a page differ", got, ref_m, f"limit={limit} offset={offset}")
        return order

    for limit, offset in sc["pages"]:
        page(limit, offset)
    if sc["sweep"] >= 1:
        got, off = [], 0
        while True:
            p = page(sc["sweep"], off)
            if not p:
                break
            got += p
            off += sc["sweep"]
        expect_same("pages do not add up to the whole", got, uids)
    ctx.collect()
    ctx.count("datums", len(uids))
    ctx.log(uids, sc["pages"], sc["sweep"], ctx.io_digest() if path else "")
    ctx.nontrivial = len(uids) >= 3
