"""I/O errors surface: whatever is returned successfully is complete and right."""
import itertools
import os

from sim import tasks
from sim.util import Invalid, Violation, attempt, canon, same
from . import _cache as K
from . import _ev as E
from . import _faulty as F


def generate(rng, idx, tier):
    if rng.random() < 0.25:
        return gen_raw(rng)
    sc = F.gen_work(rng, tier)
    T = tasks.get(sc["task"])
    sc["mode"] = "evaluator"
    sc["spec"] = T.gen_filter(rng, sc["data"])
    sc["faults"] = []
    for _ in range(rng.randint(2, 5)):
        sc["faults"].append({
            "phase": rng.choice(["create", "add", "add", "finalize", "finalize", "finalize", "finalize", "filter"]),
            "permille": rng.randrange(1000), "kind": rng.choice(["err", "err", "err", "sticky", "torn", "torn", "short", "read", "read", "read"]),
            "errno": rng.choice(F.ERRNOS), "cut": rng.randrange(1000), "heal": rng.random() < 0.7,
            "then": [rng.choice(["retry", "retry", "go on", "finalize", "load"]) for _ in range(rng.randint(1, 3))]})
    sc["reads"] = [{"file": rng.randrange(1000), "offset": rng.choice([0, 4, 100, 10**6]), "open": rng.random() < 0.4, "errno": rng.choice([5, 13, 24, 2, 116]),
                    "damage": rng.choice([None, None, None, 0, rng.randrange(1000), 999]),
                    "nth": rng.choice([None, rng.randrange(1000)]),
                    "op": rng.choice(["report", "load", "filter", "examples"])} for _ in range(rng.randint(1, 3))]
    return sc


# ---- raw cache ----
def gen_raw(rng):
    cols = K.gen_schema(rng)
    ops, n = [], 0
    for _ in range(rng.choice([2, 4, 8, 14])):
        if rng.random() < 0.75:
            m = rng.choice([1, 1, 2, 5])
            ops.append([rng.choice(["rows", "rows", "batch", "cols", "table"]), K.gen_rows(rng, cols, m, n)])
            n += m
        else:
            ops.append([rng.choice(["flush", "exit", "sort", "sort desc"])])
    if rng.random() < 0.3:
        ops.append([rng.choice(["sort", "sort desc"])])
    cfg = E.gen_cfg(rng)
    cfg["mem"] = False
    return {"mode": "raw", "cols": cols, "cfg": cfg, "ops": ops, "io": E.gen_io(rng), "end": rng.choice(["reader", "exit"]),
            "faults": [{"permille": rng.randrange(1000), "kind": rng.choice(["err", "err", "sticky", "torn", "short", "read", "read"]), "errno": rng.choice(F.ERRNOS),
                        "cut": rng.randrange(1000), "heal": rng.random() < 0.6, "retry": rng.random() < 0.4} for _ in range(rng.randint(2, 5))]}


def load(path):
    from valor_lite.cache import FileCacheReader

    return FileCacheReader.load(path)


def raw(sc, ctx):
    cols, cfg = sc["cols"], sc["cfg"]
    if cfg["batch"] < 1 or cfg["rows"] < 1 or not cols or cols[0] != "k":
        raise Invalid("cfg")
    for o in sc["ops"]:
        if len(o) > 1 and any(set(x) != set(cols) for x in o[1]):
            raise Invalid("row")

    rtotal = [0]

    def one(fault, total):
        d = ctx.fresh()
        ctx.disk.arm(d, sc["io"])
        if fault and fault["kind"] == "read":
            ctx.disk.rfault(fault["permille"] * rtotal[0] // 1000, fault["errno"])
        elif fault:
            ctx.disk.add_fault({"at": fault["permille"] * total // 1000, "kind": fault["kind"], "errno": fault["errno"], "permille": fault["cut"]})
        ctx.runs += 1
        path = os.path.join(d, "c")
        o = attempt(K.writer, cols, cfg, path)
        must = fault is None or fault["kind"] == "short"
        if not o.ok:
            if must:
                raise Violation("creation failed without a fault", repr(o))
            ctx.count("create_raised")
            return 0
        w = o.value
        acked, all_rows, unsure, failed = [], [], set(), 0
        moved, last = False, None

        def step(fn, *a):
            nonlocal failed
            r = attempt(fn, *a)
            if not r.ok:
                failed += 1
                if must:
                    raise Violation("operation failed without a fault", repr(r))
                if fault["heal"]:
                    ctx.disk.heal()
            return r

        def leave():
            with w:
                pass

        for op in sc["ops"]:
            if op[0] in ("flush", "exit", "sort", "sort desc"):
                way = "descending" if op[0] == "sort desc" else "ascending"
                fn = {"flush": lambda: w.flush(), "exit": leave}.get(op[0]) or (lambda: w.sort_by([("k", way)]))
                r = step(fn)
                if not r.ok and fault["retry"]:
                    r = step(fn)
                if op[0] in ("sort", "sort desc"):
                    moved = moved or way == "descending"
                    last = way if r.ok else None
            else:
                last = None
                r = step(K.write, w, op[0], cols, op[1])
                if r.ok:
                    acked += op[1]
                else:
                    unsure |= {x["k"] for x in op[1]}
                    if fault["retry"]:
                        r = step(K.write, w, op[0], cols, op[1])
                        if r.ok:
                            acked += op[1]
        # the rows are handed over by to_reader, or by leaving the writer's context and loading the path
        r = step(leave) if sc.get("end") == "exit" else None
        r = step(load, path) if r and r.ok else step(w.to_reader)
        if not r.ok:
            r = step(w.to_reader)
        if r.ok:
            c = step(lambda: K.read_all(r.value))
            if c.ok:
                got, tables = c.value
                ctx.count("survived_fault" if failed else "no_error_seen")
                want = {x["k"]: x for x in acked}
                gk = [x["k"] for x in got]
                core = [x for x in got if x["k"] in want]
                if moved:
                    core.sort(key=lambda x: x["k"])
                    acked.sort(key=lambda x: x["k"])
                if last:
                    for ks in tables:
                        if ks != sorted(ks, reverse=last == "descending"):
                            raise Violation("sorting succeeded but a file is not sorted", f"failed calls: {failed}; {ks[:30]}")
                    ctx.count("sorted_files")
                if not unsure and (sorted(gk) != sorted(want) or K.norm(core) != K.norm(acked)):
                    raise Violation("acknowledged rows are missing, repeated or reordered",
                                    f"failed calls: {failed}; read {gk[:30]} acknowledged {sorted(want)[:30]}")
                if unsure and (any(gk.count(k) < 1 for k in want) or any(gk.count(k) > 1 for k in want if k not in unsure)):
                    raise Violation("acknowledged rows are missing or repeated", f"failed calls: {failed}; read {gk[:30]} acknowledged {sorted(want)[:30]}")
                if failed:
                    ctx.count("readable_after_error")
        else:
            ctx.count("refused_after_error")
        ctx.collect()
        ctx.log([o[0] for o in sc["ops"]], failed, ctx.io_digest())
        rtotal[0] = rtotal[0] or ctx.disk.revents
        return ctx.disk.events

    total = one(None, 0)
    for f in sc["faults"]:
        one(f, total)
    ctx.nontrivial = True


# ---- evaluators ----
def acceptable(T, data, chunks, failed, P, sections, spec=None):
    """Reports that are right given which add calls failed (a failed call may have taken a prefix)."""
    sl = E.slices(chunks, len(data["datums"]))
    opts = []
    for i, (lo, hi) in enumerate(sl):
        opts.append([hi] if i not in failed else list(range(lo, hi + 1)))
    for combo in itertools.islice(itertools.product(*opts), 64):
        ds = []
        for (lo, _), hi in zip(sl, combo):
            ds += data["datums"][lo:hi]
        if ds:
            m = T.Model({**data, "datums": ds})
            if m.labels and not m.empty:
                if spec:
                    m = m.filtered(spec)
                yield canon(m.report(P, sections))


def judge(what, got, options, ctx):
    got = canon(got)
    d = None
    for o in options:
        d = same(got, o)
        if d is None:
            return
    raise Violation("silently incomplete or wrong result after an I/O error", f"{what}: {d}")


def evaluator(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg, chunks = sc["data"], sc["P"], sc["cfg"], sc["chunks"]
    E.need(data)
    E.check_params(P)
    M = T.Model(data)
    if not M.labels or M.empty:
        raise Invalid("labels")
    sections = E.SECTIONS[sc["task"]] + (["roc"] if sc["task"] == "clf" and M.dense else [])
    sl = E.slices(chunks, len(data["datums"]))
    want = canon(M.report(P, sections))
    spec = sc["spec"]
    FM = M.filtered(spec)

    # a clean run tells how many disk events each phase has
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    ctx.runs += 1
    marks = {}

    def mark(name, fn):
        a, ra = ctx.disk.events, ctx.disk.revents
        v = fn()
        marks[name] = (a, ctx.disk.events, ra, ctx.disk.revents)
        return v

    E.check_cfg(cfg)

    path = os.path.join(d, cfg["name"])
    ld = mark("create", lambda: T.loader(data, cfg, path))
    mark("add", lambda: E.add_all(T, ld, data, chunks))
    e = mark("finalize", lambda: T.finalize(ld, cfg))
    d0 = same(canon(T.report(e, P, sections)), want)
    if d0:
        raise Violation("wrong result without a fault", d0)
    if not FM.empty:
        mark("filter", lambda: T.filter_(e, spec, os.path.join(d, "filtered")))
    ctx.collect()
    clean_dir, clean = d, path
    labels = E.label_map(path)

    for f in sc["faults"]:
        faulty(sc, ctx, T, M, FM, f, marks, sections, want, sl, labels)
    # reading through a failing disk
    names = sorted(k for k in E.files(clean) if k.endswith((".parquet", ".cfg", ".json")))
    for r in sc["reads"]:
        if not names:
            break
        reading(sc, ctx, T, M, FM, clean_dir, clean, names, r, sections, want)
    ctx.log(want, len(sc["faults"]))
    ctx.nontrivial = True


def faulty(sc, ctx, T, M, FM, f, marks, sections, want, sl, labels):
    data, P, cfg, chunks, spec = sc["data"], sc["P"], sc["cfg"], sc["chunks"], sc["spec"]
    if f["phase"] not in marks:
        return
    lo, hi = marks[f["phase"]][2:] if f["kind"] == "read" else marks[f["phase"]][:2]
    if hi <= lo:
        return
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    at = lo + f["permille"] * (hi - lo) // 1000
    if f["kind"] == "read":
        ctx.disk.rfault(at, f["errno"])
    else:
        ctx.disk.add_fault({"at": at, "kind": f["kind"], "errno": f["errno"], "permille": f["cut"]})
    ctx.runs += 1
    E.check_cfg(cfg)
    path = os.path.join(d, cfg["name"])
    transparent = f["kind"] == "short"
    trace = []

    def tell(name, o):
        trace.append([name, "ok" if o.ok else type(o.error).__name__])
        if not o.ok:
            if transparent:
                raise Violation("failed although the disk only wrote in pieces", f"{name}: {o!r}")
            ctx.count(f"{f['phase']}_raised")
            if f["heal"]:
                ctx.disk.heal()
        return o

    def done():
        ctx.collect()
        ctx.log(trace, f["kind"], ctx.io_digest())

    o = tell("create", attempt(T.loader, data, cfg, path))
    if not o.ok:
        # the application gives up on this path; nothing may load from it
        ctx.disk.heal()
        l = attempt(T.load, path)
        if l.ok:
            raise Violation("a cache whose creation failed can be loaded", str(trace))
        return done()
    ld = o.value
    failed = set()
    e = None
    retried = False
    for i, (a, b) in enumerate(sl):
        o = tell(f"add {i}", attempt(lambda: T.add(ld, T.items(data, a, b), data.get("kind"))))
        if not o.ok:
            failed.add(i)
            if f["then"] and f["then"][0] == "retry":
                # retrying the same call: the datums may be there twice or not at all, so only refusal or the exact data is fine
                r = tell(f"add {i} again", attempt(lambda: T.add(ld, T.items(data, a, b), data.get("kind"))))
                retried = retried or r.ok
            elif f["then"] and f["then"][0] == "load":
                break
    todo = ["finalize"] + list(f["then"])
    for t in todo:
        if t == "load":
            l = tell("load", attempt(T.load, path))
            if l.ok and e is None:
                r = tell("report", attempt(T.report, l.value, P, sections))
                if r.ok:
                    judge(f"load of a cache after {trace}", r.value, acceptable(T, data, chunks, failed, P, sections), ctx)
        elif e is None:
            o = tell("finalize", attempt(T.finalize, ld, cfg))
            if o.ok:
                e = o.value
    if e is not None:
        o = tell("report", attempt(T.report, e, P, sections))
        if o.ok:
            if failed:
                if retried:
                    # a retried add succeeded: all datums acknowledged
                    judge(f"{trace}", o.value, list(acceptable(T, data, chunks, failed, P, sections)), ctx)
                else:
                    judge(f"{trace}", o.value, acceptable(T, data, chunks, failed, P, sections), ctx)
            else:
                judge(f"{trace}", o.value, [want], ctx)
            ctx.count("complete_after_fault")
        if f["phase"] == "filter" and not FM.empty:
            fp = os.path.join(d, "filtered")
            o = tell("filter", attempt(T.filter_, e, spec, fp))
            fsec = [s for s in sections if s != "roc"]
            fwant = canon(FM.report(P, fsec))
            if o.ok:
                r = tell("filtered report", attempt(T.report, o.value, P, fsec))
                if r.ok:
                    judge(f"{trace}", r.value, [fwant], ctx)
            ctx.disk.heal()
            l = attempt(T.load, fp, labels)
            if l.ok and not o.ok:
                r = attempt(T.report, l.value, P, fsec)
                if r.ok:
                    judge(f"load of a failed filter after {trace}", r.value, [fwant], ctx)
            r = attempt(T.report, e, P, sections)
            if not r.ok:
                raise Violation("a failed filter broke its source", repr(r))
            judge(f"source after failed filter {trace}", r.value, [want], ctx)
    # after the disk is well again, whatever loads must be right
    ctx.disk.heal()
    r = E.after_restart(ctx, sc["task"], path, P, sections)
    ctx.fired("process_restart")
    if "ok" in r:
        judge(f"restart after {trace}", r["ok"], [want] if not failed else acceptable(T, data, chunks, failed, P, sections), ctx)
        ctx.count("loads_after_restart")
    elif e is not None and all(t[1] == "ok" for t in trace):
        raise Violation("a cache that reported success cannot be loaded", f"{r} {trace}")
    else:
        ctx.count("refused_after_restart")
    done()


def reading(sc, ctx, T, M, FM, d, path, names, r, sections, want):
    P, spec = sc["P"], sc["spec"]
    target = os.path.join(path, names[r["file"] * len(names) // 1000])
    ctx.runs += 1
    e = T.load(path)
    ctx.disk.arm(d, sc["io"])
    keep = None
    # a file that vanished after it was listed; where nothing was listed, a missing file is an answer and no fault
    errno = r["errno"] if r["errno"] != 2 or (r["open"] and r["nth"] is None and target.endswith(".parquet")) else 5
    if r["damage"] is not None and (target.endswith(".parquet") or r["op"] == "load"):
        # a file cut short while nobody looked (lost write); the evaluator may or may not be open already
        with open(target, "rb") as f:
            keep = f.read()
        n = len(keep) * r["damage"] // 1000
        if n >= len(keep):
            keep = None
        else:
            with open(target, "wb") as f:
                f.write(keep[:n])
            ctx.fired("file_truncated")
    if keep is not None:
        pass
    elif r["nth"] is not None:
        ctx.disk.rfault(r["nth"] * 40 // 1000, errno)
    else:
        ctx.disk.readfail(os.path.realpath(target), errno, r["offset"], r["open"])
    fsec = [s for s in sections if s != "roc"]
    if r["op"] == "load":
        o = attempt(lambda: T.report(T.load(path), P, sections))
        good = [want]
    elif r["op"] == "filter" and not FM.empty:
        o = attempt(lambda: T.report(T.filter_(e, spec, os.path.join(ctx.fresh(), "f")), P, fsec))
        good = [canon(FM.report(P, fsec))]
    else:
        o = attempt(T.report, e, P, sections)
        good = [want]
    if o.ok:
        judge(f"reading with an unreadable {os.path.basename(target)}", o.value, good, ctx)
        ctx.count("read_fault_avoided")
    else:
        ctx.count("read_raised")
    ctx.collect()
    ctx.disk.heal()
    if keep is not None:
        with open(target, "wb") as f:
            f.write(keep)
    ctx.disk.arm(d, sc["io"])
    # once the disk is readable again the same evaluator answers correctly
    judge("after the disk recovered", T.report(e, P, sections), [want], ctx)
    ctx.log(r["op"], o.ok)


def execute(sc, ctx):
    (raw if sc["mode"] == "raw" else evaluator)(sc, ctx)
