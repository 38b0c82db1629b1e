"""External sort: an ordered permutation, source untouched, nothing left behind."""
import os

from sim.util import Invalid, Violation, attempt, expect_same
from . import _cache as K
from . import _ev as E

ERRNOS = [5, 28, 122, 13]


def generate(rng, idx, tier):
    n = rng.choice([0, 1, 2, 5, 9, 17, 30, 60])
    wide = rng.choice([1, 2, 4, 100])
    cols = ["k", "a", "c", "f", "b"] + (["s"] if rng.random() < 0.4 else [])
    rows = []
    base = rng.choice([0, 0, 0, 0, 2**53, -(2**60)])  # neighbours that no float can tell apart
    for i in range(n):
        r = {"k": i, "a": base + rng.randrange(wide) - wide // 2, "c": rng.randrange(2), "f": rng.choice([0.0, 0.25, 0.5, 0.75, -1.0, 1e9, round(rng.random(), 3), 0.5 + rng.randrange(4) * 1e-12]),
             "b": rng.random() < 0.5}
        if "s" in cols:
            r["s"] = rng.choice(["x", "", None])
        rows.append(r)
    chunks, left = [], n
    while left > 0:
        m = min(left, rng.choice([1, 2, 3, 8]))
        chunks.append(m)
        left -= m
    keys = rng.sample(["a", "c", "f", "b"], rng.randint(1, 3))
    sub = None
    if rng.random() < 0.4:
        rest = [c for c in cols if c not in keys and c != "k"]
        sub = ["k", *keys, *rng.sample(rest, rng.randint(0, len(rest)))]
        rng.shuffle(sub)
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 4)):
            faults.append({"permille": rng.randrange(1000), "kind": rng.choice(["err", "err", "sticky", "torn", "short", "read", "read"]),
                           "errno": rng.choice(ERRNOS), "cut": rng.randrange(1000)})
    src, dst = E.gen_cfg(rng), E.gen_cfg(rng)
    if rng.random() < 0.7:
        src["mem"] = False
    return {"cols": cols, "rows": rows, "chunks": chunks, "how": rng.choice(["rows", "batch", "table"]), "src": src, "dst": dst,
            "sorting": [[c, rng.choice(["ascending", "descending"])] for c in keys], "sub": sub, "bs": rng.choice([1, 1, 2, 3, 10, 1000]),
            "pre": rng.choice(["full", "full", "first"]), "io": E.gen_io(rng), "faults": faults}


def key(sorting):
    def f(r):
        out = []
        for c, d in sorting:
            v = float(r[c]) if c != "a" else r[c]
            out.append(-v if d == "descending" else v)
        return out
    return f


def source(sc, path):
    w = K.writer(sc["cols"], sc["src"], path)
    at = 0
    for m in sc["chunks"] + [len(sc["rows"])]:
        part = sc["rows"][at:at + m]
        at += m
        if part:
            K.write(w, sc["how"], sc["cols"], part)
    return w


def execute(sc, ctx):
    from valor_lite.cache import sort

    if not sc["sorting"] or sc["bs"] < 1 or any(sc[c][k] < 1 for c in ("src", "dst") for k in ("batch", "rows")):
        raise Invalid("sorting")
    for c, _ in sc["sorting"]:
        if c not in sc["cols"] or (sc["sub"] is not None and c not in sc["sub"]):
            raise Invalid("sorting")
    if sc["sub"] is not None and "k" not in sc["sub"] or "k" not in sc["cols"]:
        raise Invalid("sub")
    sorting = [tuple(s) for s in sc["sorting"]]
    cols = sc["sub"] or sc["cols"]
    d = ctx.fresh()
    io = sc["io"]
    ctx.disk.arm(d, io)
    tmp = ctx.tempdir(d)
    spath = None if sc["src"]["mem"] else os.path.join(d, "src", sc["src"]["name"])
    w = source(sc, spath)
    before = K.read_all(w.to_reader())
    expect_same("rows lost before sorting", K.norm(before[0]), K.norm(sc["rows"]))
    pre = sorting if sc["pre"] == "full" else sorting[:1]
    w.sort_by(list(pre))
    r = w.to_reader()
    after = K.read_all(r)
    rows = after[0]
    # in-place sort: within tables only, stable
    byk = {x["k"]: x for x in before[0]}
    want = [[k for k in sorted(t, key=lambda k: key(pre)(byk[k]))] for t in before[1]]
    expect_same("in-place sort is not a stable per-table sort", after[1], want)
    expect_same("in-place sort changed rows", K.norm(sorted(rows, key=lambda x: x["k"])), K.norm(sc["rows"]))
    src_files = E.files(os.path.join(d, "src")) if spath else None
    expect = [{c: x[c] for c in cols} for x in sorted(rows, key=key(sorting))]
    ctx.count("source_tables_gt1" if len(after[1]) > 1 else "source_tables_le1")

    def one(i, fault):
        dpath = None if sc["dst"]["mem"] else os.path.join(d, f"dst{i}", sc["dst"]["name"])
        sink = K.writer(cols, sc["dst"], dpath)
        e0 = ctx.disk.events
        l0 = len(ctx.disk.log())
        r0 = ctx.disk.revents
        if fault is not None and fault["kind"] == "read":
            ctx.disk.rfault(r0 + fault["at"], fault["errno"])
        elif fault is not None:
            ctx.disk.add_fault({**fault, "at": e0 + fault["at"]})
        ctx.runs += 1
        o = attempt(sort, source=r, sink=sink, batch_size=sc["bs"], sorting=list(sorting), columns=sc["sub"])
        ev = ctx.disk.events - e0, ctx.disk.revents - r0
        log = ctx.disk.log()[l0:]
        hit = log[fault["at"]].split(" ")[0] if fault and fault["kind"] != "read" and fault["at"] < len(log) else ""
        ctx.disk.heal()
        if fault is None or fault["kind"] == "short":
            if not o.ok:
                raise Violation("sort failed without a fault", repr(o))
        if o.ok:
            left = os.listdir(tmp)
            if left:
                raise Violation("temporary files left behind", f"{fault}: {left}")
        elif not o.ok:
            ctx.count("sort_raised")
            if fault["kind"] in ("err", "torn") and hit in ("open", "write") and os.listdir(tmp):
                raise Violation("temporary files left behind after an error", str(os.listdir(tmp)))
            for x in os.listdir(tmp):
                import shutil

                shutil.rmtree(os.path.join(tmp, x), ignore_errors=True)
        if o.ok:
            c = attempt(lambda: K.read_all(sink.to_reader())[0])
            if c.ok:
                order = key(sorting)
                byk = lambda part: K.norm(sorted(part, key=lambda x: x["k"]))  # noqa: E731
                expect_same("sort result differs", byk(c.value), byk(expect))
                expect_same("sort result is not in order", [order(x) for x in c.value], [order(x) for x in expect])
            elif fault is None:
                raise c.error
        if src_files is not None:
            x = E.diff_files(src_files, E.files(os.path.join(d, "src")))
            if x:
                raise Violation("sort changed its source", x)
        expect_same("sort changed its source", K.norm(K.read_all(r)[0]), K.norm(rows))
        return ev

    ev = one(0, None)
    for i, f in enumerate(sc["faults"]):
        n = ev[f["kind"] == "read"]
        if n == 0:
            continue
        one(i + 1, {"at": f["permille"] * n // 1000, "kind": f["kind"], "errno": f["errno"], "permille": f["cut"]})
    ctx.collect()
    ctx.log(expect, ctx.io_digest(), [f["kind"] for f in sc["faults"]])
    ctx.nontrivial = len(after[1]) > 1
