"""Lifecycle: refused calls say so and leave no trace; callers' objects are not shared."""
import os

from sim import tasks
from sim.util import Invalid, Violation, attempt, canon, expect_same
from sim.tasks import common as C
from . import _ev as E

PRE = ["empty_finalize", "load_early", "add_nothing", "bad_add", "bad_add", "bad_tail", "add", "add", "add", "add", "create_again", "mutate"]
POST = ["finalize_again", "filter_without_path", "no_thresholds", "mutate_result", "mutate", "report", "filter_empty", "bad_filter", "load", "load_file", "load_missing", "mutate_override", "filter", "filter"]

RESERVED = {"": ["datum_uid", "datum_id", "gt_label", "pd_label", "gt_label_id", "pd_label_id"], "clf": ["pd_score", "pd_winner", "match"],
            "od": ["iou", "iou_prev", "gt_id", "pd_id", "gt_uid", "pd_uid", "pd_score"], "seg": ["count"]}


def generate(rng, idx, tier):
    task = rng.choice(["clf", "od", "seg"])
    T = tasks.get(task)
    data = T.gen(rng, n=rng.choice([1, 2, 3, 5, 8]), meta=rng.random() < 0.7)
    other = T.gen(rng, n=3, meta=data["meta"])
    return {"task": task, "data": data, "other": other, "P": T.gen_params(rng), "cfg": E.gen_cfg(rng), "io": E.gen_io(rng),
            "pre": [[rng.choice(PRE), rng.randrange(1000)] for _ in range(rng.randint(1, 10))],
            "post": [[rng.choice(POST), rng.randrange(1000)] for _ in range(rng.randint(1, 6))],
            "reserved": rng.choice([None, *RESERVED[""], *RESERVED[task]])}


def snap(task, objs):
    """What the caller's objects hold."""
    def ann(a):
        return [a.metadata and dict(a.metadata), a.label, a.mask.tobytes()] if task == "seg" else \
            [a.uid, a.metadata and dict(a.metadata), list(a.labels), list(a.scores)]

    return [[o.uid, o.metadata and dict(o.metadata)] + ([o.groundtruth, list(o.predictions), list(o.scores)] if task == "clf" else
            [[ann(a) for a in o.groundtruths], [ann(a) for a in o.predictions]]) for o in objs]


def scramble(task, objs):
    """The caller reuses its objects for something else."""
    for o in objs:
        o.uid = "scrambled"
        if o.metadata:
            o.metadata.clear()
            o.metadata["split"] = "scrambled"
        if task == "clf":
            o.groundtruth = "scrambled"
            o.predictions[:] = ["scrambled"] * len(o.predictions)
            o.scores[:] = [0.123] * len(o.scores)
        else:
            for a in list(o.groundtruths) + list(o.predictions):
                if a.metadata:
                    a.metadata.clear()
                if task == "seg":
                    a.label = "scrambled"
                    a.mask[:] = ~a.mask
                else:
                    a.labels[:] = ["scrambled"] * len(a.labels)
                    a.scores[:] = [0.123] * len(a.scores)
            o.groundtruths.clear()
            o.predictions.clear()


def ruin(x):
    """Overwrite everything mutable inside a returned metric."""
    if isinstance(x, dict):
        for k in list(x):
            ruin(x[k])
        x.clear()
    elif isinstance(x, list):
        for v in x:
            ruin(v)
        x.clear()
    elif hasattr(x, "value") and hasattr(x, "parameters"):
        ruin(x.value)
        ruin(x.parameters)


def all_metrics(T, e, P):
    import numpy as np

    t = T.NAME
    if t == "seg":
        return [e.compute_precision_recall_iou()]
    if t == "clf":
        k = dict(score_thresholds=list(P["thr"]))
        hard = dict(hardmax=bool(P["hardmax"][0]))
        return [e.compute_precision_recall(**k, **hard), e.compute_confusion_matrix(**k, **hard), e.compute_examples(**k, **hard),
                e.compute_confusion_matrix_with_examples(**k, **hard)]
    k = dict(iou_thresholds=list(P["ious"]), score_thresholds=list(P["thr"]))
    return [e.compute_precision_recall(**k), e.compute_confusion_matrix(**k), e.compute_examples(**k), e.compute_confusion_matrix_with_examples(**k)]


def execute(sc, ctx):
    T = tasks.get(sc["task"])
    data, P, cfg = sc["data"], sc["P"], sc["cfg"]
    E.need(data)
    E.check_params(P)
    if data["meta"] != sc["other"]["meta"] or not sc["other"]["datums"]:
        raise Invalid("meta")
    d = ctx.fresh()
    ctx.tempdir(d)
    ctx.disk.arm(d, sc["io"])
    path = E.where(cfg, d)
    sec = E.SECTIONS[sc["task"]]

    if sc["reserved"]:
        # a refused creation leaves nothing behind
        bad = {**data, "meta": True, "fields": [[sc["reserved"], "string"]]}
        before = E.files(d)
        o = attempt(T.loader, bad, cfg, path)
        if o.ok or not isinstance(o.error, ValueError):
            raise Violation("reserved metadata names are accepted", f"{sc['reserved']}: {o!r}")
        x = E.diff_files(before, E.files(d))
        if x:
            raise Violation("a refused creation left files behind", x)
        ctx.count("reserved_refused")

    mf = C.pa_fields(data, cfg["types"])
    ld = T.loader(data, cfg, path, mf)
    at, kept, objs = 0, [], []
    n = len(data["datums"])
    for i, (op, a) in enumerate(sc["pre"]):
        if op == "add":
            k = min(n, at + 1 + a % 3)
            arrays = []
            items = T.items(data, at, k, **({"keep": arrays} if sc["task"] == "seg" else {}))
            if any((m != c).any() for m, c in arrays):
                raise Violation("making a datum changed the caller's array", f"op {i}")
            was = snap(sc["task"], items)
            T.add(ld, items, data.get("kind"))
            if snap(sc["task"], items) != was:
                raise Violation("adding data changed the caller's objects", f"op {i}")
            kept += data["datums"][at:k]
            objs += items
            at = k
        elif op == "add_nothing":
            T.add(ld, [], data.get("kind"))
        elif op == "mutate":
            scramble(sc["task"], objs)
            objs = []
            if mf and a % 2:
                mf.pop()
                mf.append(("datum_uid", "int64"))
            ctx.count("caller_mutations")
        elif op == "empty_finalize":
            if T.Model({**data, "datums": kept}).empty:
                o = attempt(T.finalize, ld, cfg)
                if o.ok or type(o.error).__name__ != "EmptyCacheError":
                    raise Violation("finalizing without data is not refused", repr(o))
                ctx.count("empty_refused")
        elif op == "load_early":
            if path:
                o = attempt(T.load, path)
                if o.ok:
                    raise Violation("an unfinished cache can be loaded", f"op {i}")
                ctx.count("early_load_refused")
        elif op == "create_again":
            if path:
                o = attempt(T.loader, sc["other"], cfg, path)
                if o.ok:
                    raise Violation("a cache under construction was created again", f"op {i}")
        elif op == "bad_tail":
            k = min(n, at + 1 + a % 3)
            head = T.items(data, at, k)
            if bad_call(T, sc, ld, a, data, head):
                # the datums before the refused one were added
                kept += data["datums"][at:k]
                objs += head
                at = k
                ctx.count("bad_tail_refused")
        elif op == "bad_add":
            before = bad_call(T, sc, ld, a, data)
            if before:
                ctx.count("bad_add_refused")
        ctx.log(op)
    if at < n:
        items = T.items(data, at, n)
        T.add(ld, items, data.get("kind"))
        kept += data["datums"][at:]
        objs += items
    M = T.Model({**data, "datums": kept})
    if M.empty or not M.labels:
        raise Invalid("empty")
    scramble(sc["task"], objs)
    e = T.finalize(ld, cfg)
    want = canon(M.report(P, sec))

    def check(i, op):
        expect_same("an evaluator is affected by a refused call or by its caller", T.report(e, P, sec), want, f"after {i} {op}:")

    names = E.label_map(path) if path else None
    check("finalize", sc["pre"])
    for i, (op, a) in enumerate(sc["post"]):
        if op == "finalize_again":
            if sc["task"] != "seg":
                o = attempt(T.finalize, ld, cfg)
                if o.ok:
                    raise Violation("a loader was finalized twice", f"op {i}")
                ctx.count("second_finalize_refused")
        elif op == "filter_without_path":
            if path:
                before = E.files(d)
                o = attempt(T.filter_, e, {"datums": ["in", "datum_uid", [kept[0]["uid"]]]}, None)
                if o.ok or not isinstance(o.error, ValueError):
                    raise Violation("filtering a stored cache without a path is not refused", repr(o))
                x = E.diff_files(before, E.files(d))
                if x:
                    raise Violation("a refused filter left files behind", x)
        elif op == "no_thresholds" and sc["task"] != "seg":
            for key in [k for k in ("thr", "ious") if k in P]:
                for s in ("pr", "cm", "ex", "cmx"):
                    o = attempt(T.report, e, {**P, key: []}, [s])
                    if o.ok or not isinstance(o.error, ValueError):
                        raise Violation("an empty threshold list is not refused", f"{s} {key}: {o!r}")
        elif op == "mutate_result":
            for r in all_metrics(T, e, P):
                ruin(r)
            inf = e.info
            inf.number_of_labels = 99
            if inf.metadata_fields:
                inf.metadata_fields.clear()
            ctx.count("result_mutations")
        elif op == "mutate":
            th = {k: list(v) if isinstance(v, list) else v for k, v in P.items()}
            T.report(e, th, sec)
        elif op in ("filter_empty", "bad_filter"):
            fp = os.path.join(d, f"o{i}") if path else None
            if op == "filter_empty":
                o = attempt(T.filter_, e, {"datums": ["in", "datum_uid", ["nobody"]]}, fp)
                if o.ok or type(o.error).__name__ != "EmptyCacheError":
                    raise Violation("a filter without result is not refused", repr(o))
            else:
                o = attempt(T.filter_, e, {"datums": ["==", "no_such_field", 1]}, fp)
                if o.ok:
                    raise Violation("a filter over an unknown field is not refused", f"op {i}")
            if fp and attempt(T.load, fp).ok:
                raise Violation("the target of a refused filter can be loaded", op)
            ctx.count("filter_refused")
        elif op == "load" and path:
            e = T.load(path)
        elif op == "mutate_override" and path:
            ov = dict(names)
            e = T.load(path, ov)
            for k in list(ov):
                ov[k] = "scrambled"
            ov.pop(0, None)
            ctx.count("override_mutations")
        elif op == "filter":
            uid = kept[a % len(kept)]["uid"]
            spec = {"datums": ["in", "datum_uid", [uid]]}
            FM = M.filtered(spec)
            if not FM.empty:
                f = T.filter_(e, spec, os.path.join(d, f"f{i}") if path else None)
                expect_same("filtering is affected by a refused call or by its caller", T.report(f, P, sec), canon(FM.report(P, sec)), f"after {i} {op}:")
                if data["meta"]:
                    got = [x[0] for x in f.info.metadata_fields or []]
                    if got != [x[0] for x in data["fields"]]:
                        raise Violation("metadata fields are affected by a caller", f"{got}")
                    # the fields can still be asked for
                    sub = ["==", "split", "train"]
                    expect_same("metadata is affected by a refused call or by its caller", T.report(f, P, sec, sub), canon(FM.report(P, sec, sub)), f"after {i} {op}:")
                ctx.count("filtered_after")
        elif op == "load_file":
            f = os.path.join(d, f"plain{i}")
            with open(f, "w") as h:
                h.write("x")
            o = attempt(T.load, f)
            if o.ok or not isinstance(o.error, NotADirectoryError):
                raise Violation("loading a plain file is not refused", repr(o))
        elif op == "load_missing":
            o = attempt(T.load, os.path.join(d, "missing", "cache"))
            if o.ok or not isinstance(o.error, FileNotFoundError):
                raise Violation("loading a missing cache is not refused", repr(o))
            if os.path.exists(os.path.join(d, "missing")):
                raise Violation("loading a missing cache created it", "")
        check(i, op)
        ctx.log(op)
    if path:
        r = E.after_restart(ctx, sc["task"], path, P, sec)
        ctx.fired("process_restart")
        if "error" in r:
            raise Violation("a cache cannot be loaded after refused calls", str(r))
        expect_same("a stored cache is affected by refused calls", r["ok"], want, str(sc["pre"]))
    ctx.collect()
    ctx.log(want, ctx.io_digest() if path else "")
    ctx.nontrivial = len(sc["pre"]) + len(sc["post"]) >= 3


def bad_call(T, sc, ld, a, data, head=()):
    """An add call that is refused at its last datum."""
    t = sc["task"]
    o = {**sc["other"], "datums": [sc["other"]["datums"][a % len(sc["other"]["datums"])]]}
    if t == "od":
        kinds = [type(x).__name__ for h in head for x in h.groundtruths + h.predictions]
        o["kind"] = {"BoundingBox": "bbox", "Polygon": "polygon", "Bitmask": "bitmask"}[kinds[0]] if kinds else \
            "bbox" if data["kind"] == "mixed" else data["kind"]  # one call takes one kind
        if not (o["datums"][0]["gts"] or o["datums"][0]["pds"]):
            return False
    items = T.items(o)
    if data["meta"]:
        items[0].metadata = {"w": "not a number"}
    elif t == "clf":
        items[0].predictions, items[0].scores = [], []
    else:
        return False
    r = attempt(T.add, ld, list(head) + items, data.get("kind"))
    if r.ok:
        raise Violation("a bad datum is accepted", f"{a}")
    return True
