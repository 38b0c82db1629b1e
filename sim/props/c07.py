"""Deleting a cache removes it completely and nothing else, and can be resumed after any fault."""
import os

from sim.util import Invalid, Violation, attempt, expect_same
from . import _cache as K
from . import _ev as E

PAIRS = [["run[1]", ["run1", "run[2]", "run"]], ["a*b", ["aXb", "ab", "a*bc"]], ["x?y", ["xzy", "x?", "xy"]], ["cache", ["cache2", "cach", "Cache"]],
         ["[ab]", ["a", "b"]], ["deep/er", ["deep/er2", "deep/other"]], ["**", ["s", "t"]], [".hid", ["hid"]], ["ü {a}", ["ü a"]], ["alone/x", []], ["one/two/three", ["one/side"]]]
FOREIGN = ["notes.txt", "x.parquet.bak", "000000.parquet.tmp", ".hidden", "sub/", "data.csv", "000001.PARQUET", "sub.parquet/", "._000000.parquet", ".tmp.parquet", "empty//", "000000//"]


def generate(rng, idx, tier):
    cols = K.gen_schema(rng)
    pair = rng.choice(PAIRS)
    cfg = E.gen_cfg(rng)
    cfg["rows"] = rng.choice([1, 1, 2, 3])
    cfg["batch"] = rng.choice([1, 1, 2])
    n = rng.choice([0, 1, 2, 4, 8])
    cols2 = K.gen_schema(rng) if rng.random() < 0.6 else cols
    cfg2 = {**E.gen_cfg(rng), "rows": rng.choice([1, 2, 3, 7]), "batch": rng.choice([1, 2, 4])}
    return {"cols2": cols2, "cfg2": cfg2, "rows2": K.gen_rows(rng, cols2, rng.choice([0, 1, 2, 5]), 100), "cols": cols, "cfg": cfg, "name": pair[0], "near": pair[1], "rows": K.gen_rows(rng, cols, n, 0),
            "how": rng.choice(["rows", "table", "batch"]), "flush": rng.random() < 0.8, "io": E.gen_io(rng),
            "foreign": rng.sample(FOREIGN, rng.choice([0, 0, 0, 1, 2])),
            "mode": rng.choice(["delete", "delete", "recreate"]), "link": rng.random() < 0.15,
            "faults": [{"permille": rng.randrange(1000), "kind": rng.choice(["err", "err", "sticky", "crash", "crash", "torn", "read", "read"]),
                        "errno": rng.choice([5, 13, 28, 16]), "cut": rng.randrange(1001)} for _ in range(rng.randint(2, 6))],
            "build_crash": rng.random() < 0.4}


def r_delete(path):
    from valor_lite.cache import FileCacheWriter

    FileCacheWriter.delete(path)
    return True


def r_recreate(path, cols, cfg, rows, how):
    from valor_lite.cache import FileCacheWriter

    w = FileCacheWriter.create(path=path, schema=K.schema(cols), batch_size=cfg["batch"], rows_per_file=cfg["rows"],
                               compression=cfg["comp"], delete_if_exists=True)
    if rows:
        K.write(w, how, cols, rows)
    w.flush()
    r = w.to_reader()
    return {"rows": K.norm(K.read_all(r)[0]), "schema": [str(f) for f in r.schema], "set": [r.batch_size, r.rows_per_file, r.compression]}


def setup(sc, ctx, d, crash_at=None):
    """Neighbours, the target, foreign files; returns the target path and everything that must survive."""
    path = os.path.join(d, sc["name"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    for k, n in enumerate(sc["near"]):
        p = os.path.join(d, n)
        os.makedirs(p, exist_ok=True)
        for f in ("000000.parquet", "x.parquet", ".cfg"):
            with open(os.path.join(p, f), "w") as h:
                h.write(f"neighbour {k}")
    for f in ("000000.parquet", ".cfg"):
        with open(os.path.join(d, f), "w") as h:
            h.write("parent")
    os.symlink(os.path.join(d, "000000.parquet"), os.path.join(d, "link.parquet"))
    with open(os.path.join(d, "kept.bin"), "w") as h:
        h.write("linked to")
    ctx.disk.arm(d, sc["io"])
    if crash_at is not None:
        ctx.disk.add_fault({"at": crash_at[0], "kind": "crash", "permille": crash_at[1]})

    def life():
        w = K.writer(sc["cols"], sc["cfg"], path)
        for r in sc["rows"]:
            K.write(w, sc["how"], sc["cols"], [r])
        if sc["flush"]:
            w.flush()

    o = attempt(life)
    if not o.ok and crash_at is None:
        raise o.error
    del o
    n = ctx.disk.events
    ctx.collect()
    ctx.disk.disarm()
    if os.path.isdir(path) and crash_at is None and sc.get("link"):  # a data file that lives elsewhere: the cache owns the link only
        os.symlink(os.path.join(d, "kept.bin"), os.path.join(path, "000099.parquet"))
    if os.path.isdir(path) and crash_at is None:
        for f in sc["foreign"]:
            p = os.path.join(path, f)
            if f.endswith("//"):
                os.makedirs(p.rstrip("/"))
            elif f.endswith("/"):
                os.makedirs(p)
                with open(os.path.join(p, "000000.parquet"), "w") as h:
                    h.write("foreign")
            else:
                with open(p, "w") as h:
                    h.write("foreign")
    return path, n


def keep(sc, path, all_):
    """What must survive: everything outside the target, and foreign files inside."""
    rel = sc["name"]
    out = {}
    own = {rel + os.sep, os.path.join(rel, ".cfg")}
    for k, v in all_.items():
        if k in own:
            continue
        if k.startswith(rel + os.sep):
            rest = k[len(rel) + 1:]
            if not any(rest == f or rest.startswith(f.rstrip("/") + os.sep) or rest == f.rstrip("/") + os.sep for f in sc["foreign"]):
                continue
        out[k] = v
    return out


def execute(sc, ctx):
    from valor_lite.cache import FileCacheWriter

    if sc["cfg"]["batch"] < 1 or sc["cfg"]["rows"] < 1 or not sc["cols"] or sc["cols"][0] != "k":
        raise Invalid("cfg")
    if any(set(r) != set(sc["cols"]) for r in sc["rows"]) or any(set(r) != set(sc["cols2"]) for r in sc["rows2"]):
        raise Invalid("row")
    if sc["cfg2"]["batch"] < 1 or sc["cfg2"]["rows"] < 1 or not sc["cols2"] or sc["cols2"][0] != "k":
        raise Invalid("cfg2")
    new = (sc["cols2"], sc["cfg2"], sc["rows2"], sc["how"])

    def act(path):
        if sc["mode"] == "delete":
            FileCacheWriter.delete(path)
        else:
            return r_recreate(path, *new)

    def survived(d, path, want, what):
        x = E.diff_files(want, keep(sc, path, E.files(d)))
        if x:
            raise Violation("deleting a cache touched something else", f"{what}: {x}")

    def gone(path, what):
        if os.path.lexists(path):
            raise Violation("a deleted cache is still there", f"{what}: {sorted(os.listdir(path))}")

    expect_rows = {"rows": K.norm(sc["rows2"]), "schema": [str(f) for f in K.schema(sc["cols2"])],
                   "set": [sc["cfg2"]["batch"], sc["cfg2"]["rows"], sc["cfg2"]["comp"]]}

    def one(fault, total):
        d = ctx.fresh()
        ctx.tempdir(d)
        bc = None
        if fault is not None and sc["build_crash"] and not sc["foreign"]:
            bc = (fault["cut"] * 13 % max(1, total[1]), fault["cut"])
        path, built = setup(sc, ctx, d, bc)
        want = keep(sc, path, E.files(d))
        existed = os.path.exists(path)
        ctx.disk.arm(d, sc["io"])
        ctx.runs += 1
        if fault is not None and fault["kind"] == "read":
            ctx.disk.rfault(fault["permille"] * total[2] // 1000, fault["errno"])
        elif fault is not None:
            ctx.disk.add_fault({"at": fault["permille"] * total[0] // 1000, "kind": fault["kind"], "errno": fault["errno"], "permille": fault["cut"]})
        o = attempt(act, path)
        n, rn = ctx.disk.events, ctx.disk.revents
        dead = ctx.disk.dead
        fired = ctx.disk.fired()
        what = f"{sc['mode']} fault={fault} foreign={sc['foreign']}"
        ctx.collect()
        ctx.log(fault and fault["kind"], o.ok, sorted(fired), ctx.io_digest())
        ctx.disk.heal()
        ctx.disk.disarm()
        survived(d, path, want, what)
        real_fault = any(k in fired for k in ("io_error_once", "io_error_until_healed", "torn_write_then_error", "crash",
                                                  "read_error", "open_for_read_error", "directory_read_error", "stat_error"))
        if sc["foreign"]:
            if o.ok and existed and not dead:
                raise Violation("deleting a cache with foreign files reported success", what)
            ctx.count("foreign_refused")
            return n, built, rn
        if o.ok and not dead:
            if sc["mode"] == "delete":
                gone(path, what)
            else:
                expect_same("a recreated cache holds other rows", o.value, expect_rows, what)
        elif not o.ok and not real_fault:
            raise Violation("deletion failed without a fault", f"{what}: {o!r}")
        else:
            ctx.count("interrupted")
        if not o.ok or dead:
            del o
            # resume, here or after a restart
            again = None
            if dead or (fault and fault["cut"] % 2):
                r = ctx.restart("sim.props.c07:r_delete", path) if sc["mode"] == "delete" else \
                    ctx.restart("sim.props.c07:r_recreate", path, *new)
                ctx.fired("process_restart")
                if "error" in r:
                    raise Violation("an interrupted deletion cannot be resumed", f"{what}: {r}")
                again = r["ok"]
            else:
                r = attempt(act, path)
                if not r.ok:
                    raise Violation("an interrupted deletion cannot be resumed", f"{what}: {r!r}")
                again = r.value
            survived(d, path, want, what)
            if sc["mode"] == "delete":
                gone(path, what)
            else:
                expect_same("a recreated cache holds other rows", again, expect_rows, what)
            ctx.count("resumed")
        if sc["mode"] == "delete" and not os.path.lexists(path):
            # nothing of the old cache shows in a new one
            expect_same("a cache made after a deletion holds something else", r_recreate(path, *new), expect_rows, what)
            FileCacheWriter.delete(path)
            gone(path, what)
        # deleting what does not exist is fine; deleting something else is refused
        FileCacheWriter.delete(os.path.join(d, "never", "existed"))
        for t in (os.path.join(d, "000000.parquet"),):
            r = attempt(FileCacheWriter.delete, t)
            if r.ok and not os.path.exists(t):
                raise Violation("deleting a plain file as a cache removed it", t)
        nd = os.path.join(d, "not_a_cache")
        os.makedirs(nd)
        for f in ("a.parquet", "b.txt"):
            with open(os.path.join(nd, f), "w") as h:
                h.write("x")
        attempt(FileCacheWriter.delete, nd)
        if sorted(os.listdir(nd)) != ["a.parquet", "b.txt"]:
            raise Violation("deleting a directory that is no cache removed files", str(os.listdir(nd)))
        return n, built, rn

    total = one(None, (0, 0, 0))
    for f in sc["faults"]:
        one(f, total)
    ctx.nontrivial = len(sc["rows"]) >= 1
