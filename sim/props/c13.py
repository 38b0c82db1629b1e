"""Threads: sharing an evaluator, or working side by side, gives the serial results."""
import os

from sim import tasks
from sim.sched import Sched
from sim.util import Invalid, Violation, attempt, canon, expect_same
from . import _cache as K
from . import _ev as E


def generate(rng, idx, tier):
    mode = rng.choice(["shared", "shared", "shared", "build", "build", "race", "race_filter", "caches", "observe", "observe"])
    n = rng.choice([2, 2, 2, 3, 4] if tier == "quick" else [2, 3, 4, 5])
    sc = {"mode": mode, "io": E.gen_io(rng), "n": n,
          "sched": {"seed": rng.randrange(1 << 30), "permille": rng.choice([3, 10, 40, 150, 500])}}
    task = rng.choice(["clf", "clf", "od", "od", "seg"])
    T = tasks.get(task)
    sc["task"] = task
    size = [1, 2, 3, 5]
    if mode == "shared" or mode == "race_filter":
        data = T.gen(rng, n=rng.choice(size + [8]))
        sc.update(data=data, P=[T.gen_params(rng) for _ in range(2)], cfg=E.gen_cfg(rng), chunks=E.gen_chunks(rng, len(data["datums"])),
                  reload=rng.random() < 0.3)
        if mode == "race_filter":
            sc["cfg"]["mem"] = False
        sc["specs"] = [T.gen_filter(rng, data) for _ in range(3)]
        sc["work"] = [[[rng.choice(["section", "section", "datums", "filter", "all", "load", "page"]), rng.randrange(1000), rng.randrange(1000)]
                       for _ in range(rng.randint(1, 3))] for _ in range(n)]
    elif mode == "build":
        sc["jobs"] = []
        for _ in range(n):
            t = rng.choice([task, task, "clf", "od", "seg"])
            X = tasks.get(t)
            d = X.gen(rng, n=rng.choice(size))
            sc["jobs"].append({"task": t, "data": d, "P": X.gen_params(rng), "cfg": E.gen_cfg(rng), "chunks": E.gen_chunks(rng, len(d["datums"]))})
        if rng.random() < 0.3:
            sc["fault"] = {"at": rng.randrange(0, 120), "kind": rng.choice(["err", "torn"]), "errno": rng.choice([5, 28]), "permille": rng.randrange(1000)}
    elif mode == "observe":
        d = T.gen(rng, n=rng.choice([1, 2, 3]))
        sc["jobs"] = [{"task": task, "data": d, "P": T.gen_params(rng), "cfg": {**E.gen_cfg(rng), "mem": False}, "chunks": E.gen_chunks(rng, len(d["datums"]))}]
        sc["spec"] = T.gen_filter(rng, d) if rng.random() < 0.4 else None
        sc["looks"] = rng.choice([3, 10, 60, 200])
    elif mode == "race":
        sc["jobs"] = []
        for _ in range(n):
            d = T.gen(rng, n=rng.choice(size))
            sc["jobs"].append({"task": task, "data": d, "P": T.gen_params(rng), "cfg": {**E.gen_cfg(rng), "mem": False}, "chunks": E.gen_chunks(rng, len(d["datums"]))})
        sc["name"] = rng.choice(E.NAMES)
    else:
        cols = K.gen_schema(rng)
        sc["cols"] = cols
        sc["same"] = rng.random() < 0.3
        sc["jobs"] = []
        for _ in range(n):
            ops, k = [], 0
            for _ in range(rng.randint(1, 8)):
                m = rng.choice([1, 1, 2, 4])
                ops.append([rng.choice(["rows", "batch", "table", "flush", "read"]), K.gen_rows(rng, cols, m, k)])
                k += m
            sc["jobs"].append({"cfg": E.gen_cfg(rng), "ops": ops})
    return sc


def run(sc, ctx, fns):
    s = Sched(sc["sched"], len(fns))
    res = s.run(fns)
    ctx.sched = {"switches": s.taken}
    ctx.steps += s.step
    ctx.fired("preemption", len(s.taken))
    ctx.fired("lock_wait", s.lock_waits)
    ctx.runs += 1
    ctx.log(s.taken)
    if len(s.taken) > len(fns):
        ctx.nontrivial = True
    if s.stalled:
        ctx.count("stalled")
    return res


def valid(j):
    T = tasks.get(j["task"])
    E.need(j["data"])
    E.check_params(j["P"])
    M = T.Model(j["data"])
    if not M.labels or M.empty:
        raise Invalid("labels")
    return T, M


def execute(sc, ctx):
    if sc["n"] < 1:
        raise Invalid("threads")
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    {"shared": shared, "race_filter": race_filter, "build": build, "race": race, "caches": caches, "observe": observe}[sc["mode"]](sc, ctx, d)
    ctx.collect()
    ctx.count("mode_" + sc["mode"])


def shared(sc, ctx, d):
    for P in sc["P"]:
        E.check_params(P)
    if not sc["P"] or len(sc["work"]) < 1:
        raise Invalid("params")
    T, M = valid({**sc, "P": sc["P"][0]})
    sec = E.SECTIONS[sc["task"]]
    path = E.where(sc["cfg"], d)
    e = E.build(T, sc["data"], sc["cfg"], sc["chunks"], path)
    if path and sc["reload"]:
        e = T.load(path)

    def job(t, work):
        out = []
        for i, (op, a, b) in enumerate(work):
            P = sc["P"][a % len(sc["P"])]
            spec = sc["specs"][b % len(sc["specs"])] if sc["specs"] else {}
            if op == "section":
                out.append(T.report(e, P, [sec[a % len(sec)]]))
            elif op == "datums":
                out.append(T.report(e, P, [sec[a % len(sec)]], spec.get("datums")))
            elif op == "all":
                out.append(T.report(e, P, sec))
            elif op == "load" and path:
                out.append(T.report(T.load(path), P, [sec[a % len(sec)]]))
            elif op == "page" and sc["task"] != "seg":
                out.append(T.examples_page(e, P, None, 1 + b % 3, a % 4))
            elif op == "filter" and not M.filtered(spec).empty:
                f = T.filter_(e, spec, os.path.join(d, f"f{t}-{i}") if path else None)
                out.append(T.report(f, P, [sec[a % len(sec)]]))
            else:
                out.append(None)
        return out

    def model(work):
        out = []
        for op, a, b in work:
            P = sc["P"][a % len(sc["P"])]
            spec = sc["specs"][b % len(sc["specs"])] if sc["specs"] else {}
            s = [sec[a % len(sec)]]
            if op == "section":
                out.append(M.report(P, s))
            elif op == "datums":
                out.append(M.report(P, s, spec.get("datums")))
            elif op == "all":
                out.append(M.report(P, sec))
            elif op == "load" and path:
                out.append(M.report(P, s))
            elif op == "page" and sc["task"] != "seg":
                m = canon(M.report(P, ["ex"]))["ex"]
                uids = [u for _, u in T.datums_in_order(M)][a % 4:][:1 + b % 3]
                if len(set(x for _, x in T.datums_in_order(M))) != len(T.datums_in_order(M)):
                    raise Invalid("uids")
                out.append({k: v for k, v in m.items() if k[len("Examples@"):].rsplit(" {", 1)[0] in uids})
            elif op == "filter" and not M.filtered(spec).empty:
                out.append(M.filtered(spec).report(P, s))
            else:
                out.append(None)
        return canon(out)

    res = run(sc, ctx, [lambda t=t, w=w: job(t, w) for t, w in enumerate(sc["work"])])
    for t, ((v, err), w) in enumerate(zip(res, sc["work"])):
        if err is not None:
            raise Violation("a thread sharing an evaluator failed", f"thread {t} {w}: {type(err).__name__}: {err}")
        expect_same("a thread sharing an evaluator got another result", canon(v), model(w), f"thread {t} {w}:")
    ctx.log(canon([v for v, _ in res]))
    expect_same("an evaluator changed after concurrent use", T.report(e, sc["P"][0], sec), canon(M.report(sc["P"][0], sec)))


def race_filter(sc, ctx, d):
    for P in sc["P"]:
        E.check_params(P)
    T, M = valid({**sc, "P": sc["P"][0]})
    P = sc["P"][0]
    sec = E.SECTIONS[sc["task"]]
    path = E.where(sc["cfg"], d)
    if path is None or not sc["specs"]:
        raise Invalid("mem")
    e = E.build(T, sc["data"], sc["cfg"], sc["chunks"], path)
    labels = E.label_map(path)
    target = os.path.join(d, "target")
    specs = [s for s in sc["specs"] if not M.filtered(s).empty]
    if not specs:
        ctx.log("nothing to filter")
        return
    mine = [specs[t % len(specs)] for t in range(sc["n"])]
    res = run(sc, ctx, [lambda s=s: T.report(T.filter_(e, s, target), P, sec) for s in mine])
    winners(ctx, res, [canon(M.filtered(s).report(P, sec)) for s in mine])
    w = next(t for t, (v, x) in enumerate(res) if x is None)
    expect_same("the winning cache differs when loaded", T.report(T.load(target, labels), P, sec), canon(M.filtered(mine[w]).report(P, sec)))
    expect_same("an evaluator changed after concurrent use", T.report(e, P, sec), canon(M.report(P, sec)))


def winners(ctx, res, wants):
    ok = [t for t, (v, x) in enumerate(res) if x is None]
    if len(ok) != 1:
        raise Violation("creating one cache from several threads does not have exactly one winner",
                        f"winners {ok}; errors {[repr(x)[:200] for _, x in res if x is not None]}")
    for t in ok:
        expect_same("the winner of a creation race got another result", canon(res[t][0]), wants[t], f"thread {t}:")
    ctx.log(ok)


def build(sc, ctx, d):
    pairs = [valid(j) for j in sc["jobs"]]
    if sc.get("fault"):
        ctx.disk.add_fault(sc["fault"])

    def job(t):
        j = sc["jobs"][t]
        T = pairs[t][0]
        p = None if j["cfg"]["mem"] else os.path.join(d, f"j{t}", j["cfg"]["name"])
        e = E.build(T, j["data"], j["cfg"], j["chunks"], p)
        out = T.report(e, j["P"], E.SECTIONS[j["task"]])
        if p:
            expect_same("a cache built next to others differs when loaded", T.report(T.load(p), j["P"], E.SECTIONS[j["task"]]), out)
        return out

    res = run(sc, ctx, [lambda t=t: job(t) for t in range(len(sc["jobs"]))])
    fired = ctx.disk.fired()
    hit = any(k in fired for k in ("io_error_once", "torn_write_then_error"))
    bad = [t for t, (_, x) in enumerate(res) if x is not None]
    for t, (v, x) in enumerate(res):
        if x is not None and isinstance(x, Violation):
            raise x
        if x is not None and not (hit and len(bad) == 1):
            raise Violation("a thread building its own evaluator failed", f"thread {t} (failed: {bad}, fault {hit}): {type(x).__name__}: {x}")
        if x is None:
            j = sc["jobs"][t]
            expect_same("a thread building its own evaluator got another result", canon(v), canon(pairs[t][1].report(j["P"], E.SECTIONS[j["task"]])), f"thread {t}:")
    ctx.log(canon([v for v, _ in res]))


def observe(sc, ctx, d):
    """Other threads keep trying to load a cache while it is being built: refused or complete."""
    if not sc["jobs"]:
        raise Invalid("jobs")
    j = sc["jobs"][0]
    T, M = valid(j)
    P, sec = j["P"], E.SECTIONS[j["task"]]
    target = os.path.join(d, "target")
    labels = None
    src = None
    W = M
    if sc["spec"] is not None:
        W = M.filtered(sc["spec"])
        if W.empty:
            ctx.log("nothing to filter")
            return
        src = E.build(T, j["data"], j["cfg"], j["chunks"], os.path.join(d, "source"))
        labels = E.label_map(os.path.join(d, "source"))
    want = canon(W.report(P, sec))

    def make():
        e = T.filter_(src, sc["spec"], target) if src is not None else E.build(T, j["data"], j["cfg"], j["chunks"], target)
        return T.report(e, P, sec)

    def look():
        seen = []
        for i in range(sc["looks"]):
            o = attempt(T.load, target, labels)
            if o.ok:
                # what was loaded stays right, now and later
                seen.append(canon(T.report(o.value, P, sec)))
                if len(seen) >= 2:
                    break
            else:
                seen.append(None)
        return seen

    res = run(sc, ctx, [make] + [look] * (sc["n"] - 1))
    if res[0][1] is not None:
        raise Violation("a build failed while others tried to load it", repr(res[0][1]))
    expect_same("a build watched by other threads got another result", canon(res[0][0]), want)
    for v, x in res[1:]:
        if x is not None:
            raise Violation("a cache under construction was loaded and cannot be used", repr(x))
        for r in v:
            if r is not None:
                expect_same("an incomplete cache was loaded while being built", r, want)
                ctx.count("observed_complete")
            else:
                ctx.count("observed_refused")
    ctx.log([[x is not None for x in v] for v, _ in res[1:]])


def race(sc, ctx, d):
    pairs = [valid(j) for j in sc["jobs"]]
    target = os.path.join(d, sc["name"])

    def job(t):
        j, T = sc["jobs"][t], pairs[t][0]
        return T.report(E.build(T, j["data"], j["cfg"], j["chunks"], target), j["P"], E.SECTIONS[j["task"]])

    res = run(sc, ctx, [lambda t=t: job(t) for t in range(len(sc["jobs"]))])
    winners(ctx, res, [canon(m.report(j["P"], E.SECTIONS[j["task"]])) for j, (_, m) in zip(sc["jobs"], pairs)])
    w = next(t for t, (v, x) in enumerate(res) if x is None)
    j = sc["jobs"][w]
    expect_same("the winning cache differs when loaded", pairs[w][0].report(pairs[w][0].load(target), j["P"], E.SECTIONS[j["task"]]),
                canon(pairs[w][1].report(j["P"], E.SECTIONS[j["task"]])))


def caches(sc, ctx, d):
    """Raw caches written side by side; optionally several readers of one finished cache."""
    cols = sc["cols"]
    for j in sc["jobs"]:
        if j["cfg"]["batch"] < 1 or j["cfg"]["rows"] < 1 or not cols or cols[0] != "k" or any(set(x) != set(cols) for _, rs in j["ops"] for x in rs):
            raise Invalid("cfg")

    def job(t):
        j = sc["jobs"][t]
        w = K.writer(cols, j["cfg"], None if j["cfg"]["mem"] else os.path.join(d, f"c{t}"))
        rows = []
        for op, rs in j["ops"]:
            if op == "flush":
                w.flush()
            elif op == "read":
                expect_same("rows differ", K.norm(K.read_all(w.to_reader())[0]), K.norm(rows))
            else:
                K.write(w, op, cols, rs)
                rows += rs
        r = w.to_reader()
        got = K.norm(K.read_all(r)[0])
        return got, K.norm(rows), r.count_rows(), r

    res = run(sc, ctx, [lambda t=t: job(t) for t in range(len(sc["jobs"]))])
    for t, (v, x) in enumerate(res):
        if isinstance(x, Violation):
            raise x
        if x is not None:
            raise Violation("a thread writing its own cache failed", f"thread {t}: {type(x).__name__}: {x}")
        expect_same("a cache written next to others holds other rows", v[0], v[1], f"thread {t}:")
    if sc["same"] and res:
        want, r = res[0][0][1], res[0][0][3]
        again = Sched(sc["sched"], 3).run([lambda: K.norm(K.read_all(r)[0]), lambda: r.count_rows(), lambda: K.norm(K.read_all(r)[0])])
        for (v, x), w in zip(again, (want, len(want), want)):
            if x is not None:
                raise Violation("a thread reading a shared cache failed", f"{type(x).__name__}: {x}")
            expect_same("threads reading a shared cache disagree", v, w)
        ctx.count("shared_reads")
