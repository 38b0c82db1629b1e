"""Cache read-back: exactly once, in order, aligned, for every history and layout."""
import os

from sim.tasks.common import to_pc
from sim.util import Invalid, Violation, expect_same
from . import _cache as K
from . import _ev as E


def generate(rng, idx, tier):
    cols = K.gen_schema(rng)
    cfg = E.gen_cfg(rng)
    nulls = rng.random() < 0.6
    ops, n = [], 0
    many = idx % 211 == 17
    if many:
        cfg.update(mem=False, batch=1, rows=1)
        cols = ["k"]
    size = rng.choice([1, 2, 3, 6, 12])
    for _ in range(rng.choice([1, 3, 6, 10, 16, 30]) if not many else 1010):
        r = rng.random()
        if many or r < 0.62:
            m = 1 if many else rng.choice([0, 1, 1, 2, size, size])
            how = "rows" if many else rng.choice(["rows", "rows", "rows", "cols", "batch", "table", "lists", "arrays"])
            ops.append([how, K.gen_rows(rng, cols, m, n, nulls)])
            n += m
        elif r < 0.72:
            ops.append(["flush"])
        elif r < 0.85:
            ops.append(["read"])
        elif r < 0.9:
            ops.append(["hold"])
        elif r < 0.95:
            ops.append(["restart"])
        else:
            ops.append(["filter", K.gen_expr(rng, cols, n)])
    return {"cols": cols, "cfg": cfg, "ops": ops, "io": E.gen_io(rng), "exprs": [K.gen_expr(rng, cols, n) for _ in range(2)],
            "sub": rng.sample(cols, rng.randint(1, len(cols))), "bs": rng.choice([1, 2, 5, 1000]), "exit": rng.random() < 0.3}


def check(ctx, sc, r, rows, groups, exact=True):
    """r: reader; rows: everything acknowledged so far; groups: k -> write id."""
    from valor_lite.cache import FileCacheReader

    cols = sc["cols"]
    want = K.norm(rows)
    got, tables = K.read_all(r)
    expect_same("rows read back differ from rows written", K.norm(got), want)
    if r.count_rows() != len(rows):
        raise Violation("row count differs", f"{r.count_rows()} != {len(rows)}")
    if r.count_tables() != len(tables):
        raise Violation("table count differs", f"{r.count_tables()} != {len(tables)}")
    seen = {}
    for ti, ks in enumerate(tables):
        for k in ks:
            w = groups[k]
            if seen.setdefault(w, ti) != ti:
                raise Violation("rows written together are split over tables", f"write {w}: tables {seen[w]} and {ti}")
    # projections and filters
    sub = sc["sub"]
    p = [x for t in r.iterate_tables(columns=list(sub)) for x in t.select(sub).to_pylist()]
    expect_same("column selection differs", K.norm(p), K.norm([{c: x[c] for c in sub} for x in rows]))
    for e in sc["exprs"]:
        f = [x for t in r.iterate_tables(filter=to_pc(e)) for x in t.to_pylist()]
        expect_same("filtered rows differ", K.norm(f), K.norm(K.model_filter(rows, e)), str(e))
        ctx.count("filtered_reads")
    ks = [int(v) for a in r.iterate_arrays(numeric_columns=["k"]) for v in (a[:, 0].tolist() if a.size else [])]
    expect_same("array iteration differs", ks, [x["k"] for x in rows])
    e = sc["exprs"][0] if sc["exprs"] else None
    out = []
    for t, a in r.iterate_tables_with_arrays(columns=list(cols), numeric_columns=["k"], filter=to_pc(e)):
        expect_same("table and array disagree", [int(v) for v in a[:, 0].tolist()] if a.size else [], t["k"].to_pylist())
        out += t.select(cols).to_pylist()
    expect_same("table/array iteration differs", K.norm(out), K.norm(K.model_filter(rows, e)))
    got = []
    for it in r.iterate_fragment_batch_iterators(batch_size=sc["bs"]):
        for b in it:
            if b.num_rows > sc["bs"]:
                raise Violation("batch larger than requested", f"{b.num_rows} > {sc['bs']}")
            got += b.to_pylist()
    expect_same("batch iteration differs", K.norm(got), want)


def execute(sc, ctx):
    cols, cfg = sc["cols"], sc["cfg"]
    if not cols or cols[0] != "k" or not sc["sub"] or cfg["batch"] < 1 or cfg["rows"] < 1 or sc["bs"] < 1:
        raise Invalid("schema")
    d = ctx.fresh()
    path = E.where(cfg, d)
    ctx.disk.arm(d, sc["io"])
    w = K.writer(cols, cfg, path)
    rows, groups, held = [], {}, []
    wid = 0

    biggest = table = closings = 0

    def final(r):
        check(ctx, sc, r, rows, groups)
        if path:
            # tables stay near the configured size: a file is closed by the write that fills it, and by nothing else
            sizes = [len(t) for t in K.read_all(r)[1]]
            most = max(table, cfg["rows"] - 1 + max(cfg["batch"] - 1, 0) + biggest)
            if max(sizes, default=0) > most:
                raise Violation("a cache file outgrows its limit", f"{sizes}: rows_per_file={cfg['rows']} batch_size={cfg['batch']} largest write={biggest}")
            if len(sizes) > len(rows) // cfg["rows"] + closings + 2:
                raise Violation("a cache is split into too many files", f"{sizes}: rows_per_file={cfg['rows']}, {closings} flushes")
        ctx.count("read_backs")

    for op in sc["ops"]:
        if op[0] in ("rows", "cols", "batch", "table", "lists", "arrays"):
            if any(set(x) != set(cols) for x in op[1]):
                raise Invalid("row")
            K.write(w, op[0], cols, op[1])
            if op[0] == "table":
                table, closings = max(table, len(op[1])), closings + 2
            else:
                biggest = max(biggest, len(op[1]))
            for x in op[1]:
                if x["k"] in groups:
                    raise Invalid("duplicate key")
                groups[x["k"]] = wid
            wid += 1
            rows = rows + op[1]
            continue
        closings += 1
        if op[0] == "flush":
            w.flush()
            if w.count_rows() != len(rows):
                raise Violation("row count of the writer differs after a flush", f"{w.count_rows()} != {len(rows)}")
            w.count_tables()
        elif op[0] == "read":
            final(w.to_reader())
        elif op[0] == "hold":
            r = w.to_reader()
            if r.count_rows() != len(rows):
                raise Violation("row count differs", f"{r.count_rows()} != {len(rows)}")
            r.count_tables()
            held.append((r, len(rows)))
        elif op[0] == "filter":
            r = w.to_reader()
            f = [x for t in r.iterate_tables(filter=to_pc(op[1])) for x in t.to_pylist()]
            expect_same("filtered rows differ", K.norm(f), K.norm(K.model_filter(rows, op[1])), str(op[1]))
        elif op[0] == "restart" and path:
            w.flush()
            restart(ctx, sc, path, rows)
    if sc["exit"]:
        with w:
            pass
    final(w.to_reader())
    for r, n in held:
        # an older reader sees what was there when it was made, possibly more, never something else
        got, tables = K.read_all(r)
        got = K.norm(got)
        want = K.norm(rows)
        if (r.count_rows(), r.count_tables()) != (len(got), len(tables)):
            raise Violation("an older reader counts other rows than it reads", f"{r.count_rows()} in {r.count_tables()}: {len(got)} in {len(tables)}")
        if len(got) < n or got != want[:len(got)]:
            raise Violation("an older reader sees other rows", f"{len(got)} rows, at least {n} expected")
    if path:
        restart(ctx, sc, path, rows)
    ctx.collect()
    ctx.log([o[0] for o in sc["ops"]], K.norm(rows), ctx.io_digest() if path else "")
    ctx.nontrivial = len(rows) >= 2 and len(sc["ops"]) >= 3


def restart(ctx, sc, path, rows):
    r = ctx.restart("sim.props._cache:r_read", path)
    ctx.fired("process_restart")
    if "error" in r:
        raise Violation("cache cannot be read after restart", f"{r['error']}: {r['msg']}")
    r = r["ok"]
    expect_same("rows differ after restart", r["rows"], K.norm(rows))
    if r["count"] != len(rows):
        raise Violation("row count differs after restart", f"{r['count']} != {len(rows)}")
    cfg = sc["cfg"]
    expect_same("settings differ after restart", [r["batch"], r["per"], r["comp"], r["schema"]],
                [cfg["batch"], cfg["rows"], cfg["comp"], [str(f) for f in K.schema(sc["cols"])]])
