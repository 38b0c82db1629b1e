"""Building and observing evaluators inside a simulated run."""
import json
import os

from sim import tasks
from sim.util import Invalid, Violation, canon, expect_same

NAMES = ["cache", "my cache", "run[1]", "a*b", "ünï", "x?y", "p.parquet", "deep/er/dir", ".hidden", "_under", "a%20b", "{a}"]
SECTIONS = {"clf": ["info", "pr", "cm", "ex", "cmx"], "od": ["info", "pr", "cm", "ex", "cmx"], "seg": ["info", "pr", "cm"]}
COMP = ["snappy", "snappy", "gzip", "zstd", "lz4", "brotli", "none"]


def gen_cfg(rng, big=False):
    return {
        "batch": rng.choice([1, 2, 3, 5, 8, 20, 1000]),
        "rows": rng.choice([1, 2, 4, 9, 30, 1000] if not big else [30, 100, 1000]),
        "fin": rng.choice([1, 2, 3, 7, 1000]),
        "comp": rng.choice(COMP),
        "types": rng.random() < 0.5,
        "name": rng.choice(NAMES),
        "mem": rng.random() < 0.3,
    }


def gen_io(rng):
    io = {}
    if rng.random() < 0.6:
        io["readdir"] = rng.randrange(1, 1 << 30)
    if rng.random() < 0.4:
        io["short"] = [rng.randrange(1, 1 << 30), rng.choice([50, 200, 600])]
    if rng.random() < 0.5:
        io["mtime"] = rng.randrange(1, 1 << 30)
    return io


def gen_chunks(rng, n):
    """How the datums are split over add calls (sizes; zeros are empty adds)."""
    out, left = [], n
    while left > 0:
        k = rng.choice([1, 1, 2, 3, left, left])
        k = min(k, left)
        if rng.random() < 0.1:
            out.append(0)
        out.append(k)
        left -= k
    return out


def slices(chunks, n):
    """Chunk sizes -> (lo, hi); tolerant of shrinking."""
    out, at = [], 0
    for k in chunks:
        hi = min(n, at + k)
        out.append((at, hi))
        at = hi
    if at < n:
        out.append((at, n))
    return out


def need(data):
    if not data["datums"]:
        raise Invalid("no datums")
    for d in data["datums"]:
        if "s" in d and "p" in d and (len(d["p"]) != len(d["s"]) or not d["p"]):
            raise Invalid("ragged")
        for p in d.get("pds", []):
            if "ls" in p and (len(p["ls"]) != len(p["ss"]) or not p["ls"]):
                raise Invalid("ragged")


def check_params(P):
    for k in ("thr", "hardmax", "ious"):
        if k in P and not P[k]:
            raise Invalid("no thresholds")


def add_all(T, ld, data, chunks):
    for lo, hi in slices(chunks, len(data["datums"])):
        T.add(ld, T.items(data, lo, hi), data.get("kind"))


def build(T, data, cfg, chunks, path=None):
    ld = T.loader(data, cfg, path)
    add_all(T, ld, data, chunks)
    return T.finalize(ld, cfg)


def check_cfg(*cfgs):
    for c in cfgs:
        if min(c["batch"], c["rows"], c["fin"]) < 1:
            raise Invalid("sizes")


def where(cfg, d):
    check_cfg(cfg)
    return None if cfg["mem"] else os.path.join(d, cfg["name"])


def label_map(path):
    """index -> label as recorded in the stored rows of a finalized cache (order is an implementation detail)."""
    import pyarrow.parquet as pq

    out = {}
    for dp, dn, fn in os.walk(path):
        for n in sorted(fn):
            if not n.endswith(".parquet"):
                continue
            t = pq.ParquetFile(os.path.join(dp, n)).read()
            for side in ("gt", "pd"):
                a, b = f"{side}_label_id", f"{side}_label"
                if a in t.column_names and b in t.column_names:
                    for i, l in zip(t[a].to_pylist(), t[b].to_pylist()):
                        if i is not None and i >= 0 and l is not None:
                            out[i] = l
    return out


def files(root, skip=()):
    """name -> bytes of everything below root."""
    out = {}
    for dp, dn, fn in os.walk(root):
        dn.sort()
        for n in fn:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if any(rel == s or rel.startswith(s + os.sep) for s in skip):
                continue
            if os.path.islink(p):
                out[rel] = b"link:" + os.fsencode(os.readlink(p))
            else:
                with open(p, "rb") as f:
                    out[rel] = f.read()
        for n in dn:
            rel = os.path.relpath(os.path.join(dp, n), root)
            if not any(rel == s or rel.startswith(s + os.sep) for s in skip):
                out[rel + os.sep] = b""
    return out


def diff_files(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in b:
            return f"{k!r} disappeared"
        if k not in a:
            return f"{k!r} appeared"
        if a[k] != b[k]:
            return f"{k!r} changed ({len(a[k])} -> {len(b[k])} bytes)"
    return None


# ---- run inside the restarted process ----
def r_report(task, path, P, sections, override=None, datums=None):
    T = tasks.get(task)
    ov = {int(k): v for k, v in override.items()} if override else None
    return T.report(T.load(path, ov), P, sections, datums)


def r_load(task, path):
    T = tasks.get(task)
    T.load(path)
    return True


def after_restart(ctx, task, path, P, sections, override=None, datums=None):
    return ctx.restart("sim.props._ev:r_report", task, path, P, sections, override, datums)


def expect_report(cls, T, e, model, P, sections, what, datums=None, tol=1e-9):
    expect_same(cls, T.report(e, P, sections, datums), canon(model.report(P, sections, datums)), what, tol)
