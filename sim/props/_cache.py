"""Raw caches: schema and row generation, adapter, reference model."""
import math
import os

from sim.tasks.common import ev, to_pc
from sim.util import Violation, canon, expect_same
from . import _ev as E

KINDS = {"i": "int64", "f": "float64", "s": "string", "b": "bool_", "g": "float64", "h": "int32"}


def gen_schema(rng):
    cols = rng.sample(["i", "f", "s", "b", "g", "h"], rng.randint(0, 6))
    return ["k", *cols]


def gen_value(rng, c, nulls):
    if nulls and rng.random() < 0.15:
        return None
    return {
        "i": lambda: rng.choice([0, 1, -1, 7, 2**53 + 1, -(2**62), rng.randrange(1000)]),
        "h": lambda: rng.randrange(-5, 6),
        "f": lambda: rng.choice([0.0, -1.5, 1e-9, 0.1, 1e300, round(rng.random(), 5)]),
        "g": lambda: rng.choice(["nan", "inf", "-inf", 0.0, 0.5, -2.25]),
        "s": lambda: rng.choice(["", "a", "ü", "a b", "x" * 50, "null", "\n", "😀"]),
        "b": lambda: rng.random() < 0.5,
    }[c]()


def gen_rows(rng, cols, n, start, nulls=True):
    return [{c: (start + j if c == "k" else gen_value(rng, c, nulls)) for c in cols} for j in range(n)]


def real(v, c):
    if c in ("g", "f") and isinstance(v, str):
        return float(v)
    return v


def schema(cols):
    import pyarrow as pa

    t = {"i": pa.int64(), "k": pa.int64(), "f": pa.float64(), "g": pa.float64(), "s": pa.string(), "b": pa.bool_(), "h": pa.int32(),
         "a": pa.int64(), "c": pa.int64()}
    return pa.schema([(c, t[c]) for c in cols])


def writer(cols, cfg, path):
    from valor_lite.cache import FileCacheWriter, MemoryCacheWriter

    if path is None:
        return MemoryCacheWriter.create(schema=schema(cols), batch_size=cfg["batch"])
    return FileCacheWriter.create(path=path, schema=schema(cols), batch_size=cfg["batch"], rows_per_file=cfg["rows"],
                                  compression=cfg["comp"])


def batch(cols, rows):
    import pyarrow as pa

    s = schema(cols)
    return pa.RecordBatch.from_arrays([pa.array([real(r[c], c) for r in rows], type=s.field(c).type) for c in cols], schema=s)


def _column(c, values, array):
    import numpy as np

    if not array or c == "s" or None in values:
        return values
    return np.array(values, dtype={"b": np.bool_, "h": np.int32, "f": np.float64, "g": np.float64}.get(c, np.int64))


def write(w, how, cols, rows):
    import pyarrow as pa

    if how == "rows":
        # absent keys mean null
        w.write_rows([{c: real(v, c) for c, v in r.items() if v is not None or j % 2} for j, r in enumerate(rows)])
    elif how == "cols":
        s = schema(cols)
        w.write_columns({c: pa.array([real(r[c], c) for r in rows], type=s.field(c).type) for c in cols})
    elif how in ("lists", "arrays"):
        # plain values in any column order; arrays belong to the caller, who uses them again
        order = cols[::-1] if rows and rows[0]["k"] % 2 else cols
        data = {c: _column(c, [real(r[c], c) for r in rows], how == "arrays") for c in order}
        w.write_columns(data)
        for v in data.values():
            if isinstance(v, list):
                v.clear()
            elif v.dtype != object:
                v[:] = v[::-1] if v.dtype == bool else -7
    elif how == "batch":
        w.write_batch(batch(cols, rows))
    elif how == "table":
        w.write_table(pa.Table.from_batches([batch(cols, rows)]))
    else:
        raise ValueError(how)


def norm(rows):
    return [[canon(real(v, c)) for c, v in sorted(r.items())] for r in rows]


def model_filter(rows, expr):
    return rows if expr is None else [r for r in rows if ev(expr, {c: real(v, c) for c, v in r.items()}) is True]


def gen_expr(rng, cols, n):
    opts = [[">=", "k", rng.randrange(0, n + 1)], ["<", "k", rng.randrange(0, n + 1)], ["in", "k", [rng.randrange(0, n + 1) for _ in range(3)]]]
    if "s" in cols:
        opts.append(["in", "s", ["a", ""]])
    if "b" in cols:
        opts.append(["==", "b", True])
    if "h" in cols:
        opts.append(["!=", "h", rng.randrange(-5, 6)])
    e = rng.choice(opts)
    if rng.random() < 0.2:
        e = ["not", e]
    if rng.random() < 0.2:
        e = [rng.choice(["and", "or"]), e, rng.choice(opts)]
    return e


def read_all(reader):
    """Rows and table sizes in iteration order."""
    rows, sizes = [], []
    for t in reader.iterate_tables():
        rows += t.to_pylist()
        sizes.append([r["k"] for r in t.to_pylist()] if "k" in t.column_names else t.num_rows)
    return rows, sizes


def r_read(path):
    from valor_lite.cache import FileCacheReader

    r = FileCacheReader.load(path)
    rows, sizes = read_all(r)
    return {"rows": norm(rows), "count": r.count_rows(), "tables": r.count_tables(), "sizes": len(sizes),
            "batch": r.batch_size, "per": r.rows_per_file, "comp": r.compression, "schema": [str(f) for f in r.schema]}
