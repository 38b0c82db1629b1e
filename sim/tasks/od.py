"""Object detection: workload, adapter and reference model."""
from . import common as C
from sim.util import Invalid
from .common import ev, f1, key, zdiv

NAME = "od"
EMPTY = "EmptyCacheError"
EPS = 1e-9
SIZE = 12
FIELDS = C.META_FIELDS + [["gm", "string"], ["pm", "int64"]]


def _box(rng, near=None):
    if near is not None and rng.random() < 0.75:
        x0, x1, y0, y1 = near[:4]
        j = lambda: rng.choice([0, 0, 0, 1, -1, 2])  # noqa: E731
        x0, x1, y0, y1 = x0 + j(), x1 + j(), y0 + j(), y1 + j()
    else:
        x0, y0 = rng.randrange(0, SIZE - 1), rng.randrange(0, SIZE - 1)
        x1, y1 = x0 + rng.randint(1, 5), y0 + rng.randint(1, 5)
    x0, y0 = max(0, min(x0, SIZE - 1)), max(0, min(y0, SIZE - 1))
    x1, y1 = max(x0 + 1, min(x1, SIZE)), max(y0 + 1, min(y1, SIZE))
    return [x0, x1, y0, y1]


def gen(rng, n=None, dense=None, meta=None, big=False):
    if big:
        return _big(rng)
    pool = rng.choice(C.LABEL_POOLS)
    labels = rng.sample(pool, rng.randint(1, min(4, len(pool))))
    n = n if n is not None else rng.choice([1, 1, 2, 3, 4, 5, 7, 10])
    meta = meta if meta is not None else rng.random() < 0.5
    fields = C.gen_fields(rng, FIELDS, meta)
    kind = rng.choice(["bbox", "bbox", "bbox", "polygon", "bitmask"])
    fmt = rng.choice(C.UID_POOL)
    style = rng.choice(C.SCORES)
    crowd = rng.choice([1, 2, 3, 5])
    local = rng.random() < 0.3
    multi = rng.random() < 0.5
    datums = []
    c = 0

    score = lambda: C.gen_score(rng, style)  # noqa: E731
    for i in range(n):
        gts, pds = [], []
        r = rng.random()
        ng = 0 if r < 0.1 else rng.randint(0, crowd)
        for k in range(ng):
            near = rng.choice(gts)["box"] if gts and rng.random() < 0.4 else None
            gts.append({"uid": f"g{k if local else c}", "box": _box(rng, near), "l": rng.choice(labels),
                        "m": rng.choice([None, "x", "y"]) if meta else None})
            c += 1
        for k in range(0 if r > 0.93 else rng.randint(0, crowd + 1)):
            near = rng.choice(gts) if gts and rng.random() < 0.85 else None
            nl = rng.randint(1, min(3, len(labels))) if multi and rng.random() < 0.4 else 1
            ls = rng.sample(labels, nl)
            if near is not None and rng.random() < 0.6 and near["l"] not in ls:
                ls[0] = near["l"]
            if near is not None and rng.random() < 0.25:
                box = list(near["box"])
            else:
                box = _box(rng, near["box"] if near else None)
            pds.append({"uid": f"p{k if local else c}", "box": box, "ls": ls, "ss": [score() for _ in ls],
                        "m": rng.choice([None, 0, 1, 2]) if meta else None})
            c += 1
        datums.append({"uid": fmt.format(i), "gts": gts, "pds": pds, "m": C.gen_meta(rng, meta, fields)})
    if kind in ("polygon", "bitmask") and rng.random() < 0.6:  # shapes that are no rectangles
        for a in [a for d in datums for a in d["gts"] + d["pds"]]:
            w, h = a["box"][1] - a["box"][0], a["box"][3] - a["box"][2]
            if w > 1 and h > 1 and rng.random() < 0.5:
                a["box"] = a["box"] + [rng.randint(1, w - 1), rng.randint(1, h - 1)]
        d = rng.choice(datums)
        if rng.random() < 0.4:  # a datum with the same extents and other shapes
            t = {**d, "uid": fmt.format(n), "gts": [{**a, "uid": a["uid"] + "t"} for a in d["gts"]], "pds": [{**a, "uid": a["uid"] + "t"} for a in d["pds"]]}
            for a in t["gts"] + t["pds"]:
                w, h = a["box"][1] - a["box"][0], a["box"][3] - a["box"][2]
                if w > 1 and h > 1 and rng.random() < 0.7:
                    a["box"] = a["box"][:4] + [rng.randint(1, w - 1), rng.randint(1, h - 1)]
            datums.insert(rng.randrange(n + 1), t)
    if kind in ("bbox", "polygon") and rng.random() < 0.08:  # overlaps of a thousandth and less
        for a in rng.choice(datums)["gts"] + rng.choice(datums)["pds"]:
            if rng.random() < 0.5:
                a["box"] = [0, rng.choice([40, 60]), 0, rng.choice([25, 50])]
    elif rng.random() < 0.15:
        kind = "mixed"
        for a in [a for d in datums for a in d["gts"] + d["pds"]]:
            a["box"] = a["box"][:4]
    if not any(d["gts"] or d["pds"] for d in datums):
        datums[0]["gts"].append({"uid": "g", "box": [0, 2, 0, 2], "l": labels[0], "m": None})
    return {"task": NAME, "meta": meta, "fields": fields, "kind": kind, "datums": datums, "order": rng.choice(["C", "C", "F", "view"]),
            "at": rng.choice([[0, 0, 1], [0, 0, 1], [-6.5, -4.0, 1], [-4096, 1000.25, 1], [1.5, -9, 0.25], [0, 0, 64], [-0.125, -0.125, 0.0078125]])}


def _big(rng):
    """Many annotations of few labels: many recall steps, large ids, one or several datums and files."""
    labels = rng.sample(rng.choice(C.LABEL_POOLS), rng.choice([1, 1, 1, 2, 3]))
    n = rng.choice([1, 1, 2, 5, 12])
    total = rng.choice([50, 50, 100, 100, 130, 150, 200, 270, 330])
    style = rng.choice(["float", "close", "grid"])
    hit = rng.choice([0.5, 0.7, 0.9, 1.0])
    shift = rng.choice([0, 0, 1])
    step = rng.choice([10, 10, 5])  # neighbouring ground truths overlap or not
    datums = [{"uid": f"d{i}", "gts": [], "pds": [], "m": None} for i in range(n)]
    for c in range(total):
        d = datums[0] if rng.random() < 0.1 else rng.choice(datums)
        x = step * len(d["gts"])
        box = [x, x + rng.choice([4, 8]), 0, rng.choice([2, 5])]
        l = rng.choice(labels)
        d["gts"].append({"uid": f"g{c}", "box": box, "l": l, "m": None})
        if rng.random() < hit:
            k = rng.choice([1, 1, 1, 1, 2])
            for q in range(k):
                ls = [l] if rng.random() < 0.95 else rng.sample(labels, 1)
                d["pds"].append({"uid": f"p{c}.{q}", "box": [box[0], box[1] + shift * rng.choice([0, 1]), 0, box[3]], "ls": ls,
                                 "ss": [C.gen_score(rng, style)], "m": None})
    for d in datums:
        rng.shuffle(d["pds"])
    datums = [d for d in datums if d["gts"] or d["pds"]]
    return {"task": NAME, "meta": False, "fields": FIELDS, "kind": "bbox", "datums": datums, "big": True}


def padded(data, n, how):
    """The same data behind n ground truths nothing was predicted for, so that ids are large."""
    l = _labels(data)[0]
    g = lambda i: {"uid": f"pad{i}", "box": [0, 2, 0, 2], "l": l, "m": None}  # noqa: E731
    m = data["datums"][0]["m"]
    if how == "datums":
        pad = [{"uid": f"pad-{i}", "gts": [g(i)], "pds": [], "m": m} for i in range(n)]
    else:
        pad = [{"uid": "pad-", "gts": [g(i) for i in range(n)], "pds": [], "m": m}]
    return {**data, "kind": "bbox" if data["kind"] == "mixed" else data["kind"], "datums": pad + data["datums"]}


def gen_params(rng):
    ious = rng.sample([0.1, 0.25, 0.3, 0.5, 0.55, 0.75, 0.9, 1.0, 0.02, 0.0001], rng.choice([1, 1, 2, 3]))
    scores = rng.sample([0.0, 0.1, 0.3, 0.5, 0.75, 0.9, 0.95], rng.choice([1, 1, 2, 3]))
    scores = C.near_thresholds(rng, scores)
    ious = [t for t in C.near_thresholds(rng, ious) if t > 0]
    if rng.random() < 0.4:
        ious.sort()
        scores.sort()
    return {"ious": ious, "thr": scores}


def _labels(data):
    return sorted({g["l"] for d in data["datums"] for g in d["gts"]} | {l for d in data["datums"] for p in d["pds"] for l in p["ls"]})


def gen_filter(rng, data, which=("datums", "gts", "pds")):
    labels = _labels(data)
    f = {}
    if "datums" in which and rng.random() < 0.5:
        f["datums"] = C.gen_datum_expr(rng, data)
    if "gts" in which and rng.random() < 0.45:
        f["gts"] = ["in", "gt_label", rng.sample(labels, rng.randint(1, len(labels)))]
        if data["meta"] and rng.random() < 0.5:
            f["gts"] = ["==", "gm", rng.choice(["x", "y"])]
        f["gts"] = C.mix_datum_expr(rng, data, f["gts"])
        if rng.random() < 0.15:
            f["gts"] = ["not", f["gts"]]
    if "pds" in which and rng.random() < 0.45:
        r = rng.random()
        if r < 0.4:
            f["pds"] = ["in", "pd_label", rng.sample(labels, rng.randint(1, len(labels)))]
        elif r < 0.7 or not data["meta"]:
            f["pds"] = [rng.choice([">=", "<"]), "pd_score", rng.choice([0.25, 0.3, 0.5, 0.9])]
            if f["pds"][0] == "<":
                # rows without a prediction carry a score of -1: they own no prediction to keep
                f["pds"] = ["and", f["pds"], [">=", "pd_score", 0.0]]
        else:
            f["pds"] = ["in", "pm", rng.sample([0, 1, 2], rng.randint(1, 2))]
        f["pds"] = C.mix_datum_expr(rng, data, f["pds"])
    if not f:
        f["datums"] = C.gen_datum_expr(rng, data) if "datums" in which else None
    return f


# ---- adapter to the real code ----
def items(data, lo=0, hi=None):
    import numpy as np
    from valor_lite.object_detection import Bitmask, BoundingBox, Detection, Polygon

    kind = data["kind"] if data["kind"] != "mixed" else ["bbox", "polygon", "bitmask"][lo % 3]

    dx, dy, s = data.get("at") or (0, 0, 1)

    def ann(a, labels, scores, meta):
        x0, x1, y0, y1 = a["box"][:4]
        w, h = a["box"][4:] or (0, 0)
        if (w or h) and (kind == "bbox" or not 0 < w < x1 - x0 or not 0 < h < y1 - y0):
            raise Invalid("shape")
        kw = dict(uid=a["uid"], labels=labels, scores=scores, metadata=meta)
        if kind != "bitmask" and (dx or dy or s != 1):  # moved and scaled, exactly
            x0, x1, y0, y1, w, h = dx + s * x0, dx + s * x1, dy + s * y0, dy + s * y1, s * w, s * h
        if kind == "bbox":
            return BoundingBox(xmin=float(x0), xmax=float(x1), ymin=float(y0), ymax=float(y1), **kw)
        if kind == "polygon":
            from shapely.geometry import Polygon as SP

            if w:
                return Polygon(shape=SP([(x0, y0), (x1, y0), (x1, y1 - h), (x1 - w, y1 - h), (x1 - w, y1), (x0, y1)]), **kw)
            return Polygon(shape=SP([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]), **kw)
        m = np.zeros((SIZE, SIZE), dtype=np.bool_)
        m[y0:y1, x0:x1] = True
        if w:
            m[y1 - h:y1, x1 - w:x1] = False
        if data.get("order") == "F":
            m = np.asfortranarray(m)
        elif data.get("order") == "view":
            m = np.repeat(m, 2, axis=1)[:, ::2]
        return Bitmask(mask=m, **kw)

    return [
        Detection(
            uid=d["uid"],
            groundtruths=[ann(g, [g["l"]], [], {"gm": g["m"]} if g["m"] is not None else None) for g in d["gts"]],
            predictions=[ann(p, list(p["ls"]), list(p["ss"]), {"pm": p["m"]} if p["m"] is not None else None) for p in d["pds"]],
            metadata=C.meta_values(data, d["m"]))
        for d in data["datums"][lo:hi]
    ]


def loader(data, cfg, path=None, mf=None):
    from valor_lite.object_detection import Loader

    mf = mf if mf is not None else C.pa_fields(data, cfg.get("types", True))
    if path is None:
        return Loader.in_memory(batch_size=cfg["batch"], metadata_fields=mf)
    return Loader.persistent(path, batch_size=cfg["batch"], rows_per_file=cfg["rows"],
                             compression=cfg.get("comp", "snappy"), metadata_fields=mf)


def add(ld, objs, mode="bbox"):
    if mode == "mixed":  # calls with different kinds of annotations fill one loader
        kinds = [type(a).__name__ for o in objs for a in o.groundtruths + o.predictions]
        mode = {"BoundingBox": "bbox", "Polygon": "polygon", "Bitmask": "bitmask"}[kinds[0]] if kinds else "bbox"
    {"bbox": ld.add_bounding_boxes, "polygon": ld.add_polygons, "bitmask": ld.add_bitmasks}[mode](objs)


def finalize(ld, cfg):
    return ld.finalize(batch_size=cfg.get("fin", 1000))


def load(path, override=None):
    from valor_lite.object_detection import Evaluator

    return Evaluator.load(path, index_to_label_override=override)


def filter_(e, spec, path=None, batch=None):
    kw = {} if batch is None else {"batch_size": batch}
    return e.filter(datums=C.to_pc(spec.get("datums")), groundtruths=C.to_pc(spec.get("gts")),
                    predictions=C.to_pc(spec.get("pds")), path=path, **kw)


def counts(e, spec):
    i = e.get_info(datums=C.to_pc(spec.get("datums")), groundtruths=C.to_pc(spec.get("gts")), predictions=C.to_pc(spec.get("pds")))
    return {"datums": i.number_of_datums, "labels": i.number_of_labels,
            "gts": i.number_of_groundtruth_annotations, "pds": i.number_of_prediction_annotations}


def report(e, P, sections, datums=None):
    x = C.to_pc(datums)
    out = {}
    if "info" in sections:
        i = e.get_info(datums=x)
        out["info"] = {"datums": i.number_of_datums, "labels": i.number_of_labels,
                       "gts": i.number_of_groundtruth_annotations, "pds": i.number_of_prediction_annotations}
    kw = dict(iou_thresholds=list(P["ious"]), score_thresholds=list(P["thr"]), datums=x)
    if "pr" in sections:
        out["pr"] = C.flat(e.compute_precision_recall(**kw))
    if "cm" in sections:
        out["cm"] = C.metric_map(e.compute_confusion_matrix(**kw))
    if "ex" in sections:
        out["ex"] = C.ex_map(e.compute_examples(**kw))
    if "cmx" in sections:
        out["cmx"] = C.cmx_map(e.compute_confusion_matrix_with_examples(**kw))
    return out


def examples_page(e, P, datums, limit, offset):
    return C.ex_map(e.compute_examples(iou_thresholds=list(P["ious"]), score_thresholds=list(P["thr"]),
                                       datums=C.to_pc(datums), limit=limit, offset=offset))


# ---- reference model ----
def cells(a):
    """Unit cells of a box, without the corner that may have been taken out."""
    w, h = a[4:] or (0, 0)
    return {(x, y) for x in range(a[0], a[1]) for y in range(a[2], a[3]) if not (x >= a[1] - w and y >= a[3] - h)}


def iou(a, b):
    if len(a) > 4 or len(b) > 4:
        x, y = cells(a), cells(b)
        return len(x & y) / len(x | y)
    w = max(0, min(a[1], b[1]) - max(a[0], b[0]))
    h = max(0, min(a[3], b[3]) - max(a[2], b[2]))
    i = w * h
    return i / ((a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - i)


class Model:
    def __init__(self, data):
        self.labels = []
        self.datums = []  # {"id","uid","m","g":[(idx,uid,label,box,meta)],"p":[(idx,uid,label,score,box,meta)]}
        seen = set()
        for i, d in enumerate(data["datums"]):
            for l in [g["l"] for g in d["gts"]] + [l for p in d["pds"] for l in p["ls"]]:
                if l not in seen:
                    seen.add(l)
                    self.labels.append(l)
            if not (d["gts"] or d["pds"]):
                continue
            self.datums.append({
                "id": i, "uid": d["uid"], "m": d["m"] or {},
                "g": [(k, g["uid"], g["l"], g["box"], g["m"]) for k, g in enumerate(d["gts"])],
                "p": [(k, p["uid"], l, s, p["box"], p["m"]) for k, p in enumerate(d["pds"]) for l, s in zip(p["ls"], p["ss"])],
            })

    def filtered(self, spec):
        m = Model.__new__(Model)
        m.labels = self.labels
        m.datums = []
        for d in self.datums:
            base = {**d["m"], "datum_uid": d["uid"], "datum_id": d["id"]}
            if ev(spec.get("datums"), base) is not True:
                continue
            g = [x for x in d["g"] if ev(spec.get("gts"), {**base, "gt_uid": x[1], "gt_label": x[2], "gm": x[4]}) is True]
            p = [x for x in d["p"] if ev(spec.get("pds"), {**base, "pd_uid": x[1], "pd_label": x[2], "pd_score": x[3], "pm": x[5]}) is True]
            if g or p:
                m.datums.append({**d, "g": g, "p": p})
        return m

    @property
    def empty(self):
        return not self.datums

    def n_datums(self):
        return len(self.datums)

    def counts(self, spec):
        i = lambda *keys: self.filtered({k: spec.get(k) for k in keys}).report({}, ["info"])["info"]  # noqa: E731
        return {**i("datums"), "gts": i("datums", "gts")["gts"], "pds": i("datums", "pds")["pds"]}

    # -- precision/recall side --
    def _ranked(self):
        """One entry per kept (prediction, label), in rank order."""
        out = []
        for d in self.datums:
            rows = []  # (p idx, label, score, iou, gt idx or None, gt label)
            for pi, uid, l, s, box, _ in d["p"]:
                hits = [(gi, gl, iou(gb, box)) for gi, _, gl, gb, _ in d["g"]]
                hits = [h for h in hits if h[2] >= EPS]
                if hits:
                    rows += [(pi, l, s, v, gi, gl) for gi, gl, v in hits]
                else:
                    rows.append((pi, l, s, 0.0, None, None))
            good = {r[0] for r in rows if r[4] is not None and r[1] == r[5]}
            rows = [r for r in rows if r[0] not in good or r[1] == r[5]]
            best = {}
            for r in rows:
                k = (r[0], r[1])
                if k not in best or r[3] > best[k][3]:
                    best[k] = r
            out += [(d["id"], *r) for r in best.values()]
        # stable: ties keep datum, prediction order
        out.sort(key=lambda r: (-r[3], -r[4], r[0], r[1]))
        return out

    def _pr(self, P, o):
        ranked = self._ranked()
        labels = self.labels
        ngt = {l: sum(1 for d in self.datums for g in d["g"] if g[2] == l) for l in labels}
        ap, rec = {}, {}
        for t in P["ious"]:
            taken, tp_flag = set(), []
            for (d, pi, l, s, v, gi, gl) in ranked:
                is_tp = False
                if gi is not None and gl == l and v >= t and (d, gi) not in taken:
                    taken.add((d, gi))
                    is_tp = s > EPS
                tp_flag.append(is_tp)
            for l in labels:
                prec = [0.0] * 101
                sc = [0.0] * 101
                k = n = 0
                for r, f in zip(ranked, tp_flag):
                    if r[2] != l:
                        continue
                    n += 1
                    b, p = 0, 0.0
                    if f:
                        k += 1
                        b, p = k * 100 // ngt[l], k / n
                    prec[b] = max(prec[b], p)
                    sc[b] = max(sc[b], r[3])
                for b in range(99, -1, -1):
                    prec[b] = max(prec[b], prec[b + 1])
                    sc[b] = max(sc[b], sc[b + 1])
                ap[(t, l)] = sum(prec) / 101.0
                o[key("AP", iou_threshold=t, label=l)] = ap[(t, l)]
                o[key("PrecisionRecallCurve", iou_threshold=t, label=l)] = {"precisions": prec, "scores": sc}
            o[key("mAP", iou_threshold=t)] = C.mean(ap[(t, l)] for l in labels)
            for s in P["thr"]:
                for l in labels:
                    tp = sum(1 for r, f in zip(ranked, tp_flag) if f and r[2] == l and r[3] >= s)
                    fp = sum(1 for r, f in zip(ranked, tp_flag) if not f and r[2] == l and r[3] >= s and r[3] > EPS)
                    par = dict(iou_threshold=t, score_threshold=s, label=l)
                    p, rc = zdiv(tp, tp + fp), zdiv(tp, ngt[l])
                    rec[(t, s, l)] = rc
                    o[key("Counts", **par)] = {"tp": tp, "fp": fp, "fn": ngt[l] - tp}
                    o[key("Precision", **par)] = p
                    o[key("Recall", **par)] = rc
                    o[key("F1", **par)] = f1(p, rc)
        I, S = P["ious"], P["thr"]
        for l in labels:
            o[key("APAveragedOverIOUs", iou_thresholds=I, label=l)] = C.mean(ap[(t, l)] for t in I)
            for s in S:
                o[key("AR", iou_thresholds=I, score_threshold=s, label=l)] = C.mean(rec[(t, s, l)] for t in I)
            o[key("ARAveragedOverScores", iou_thresholds=I, score_thresholds=S, label=l)] = C.mean(rec[(t, s, l)] for t in I for s in S)
        o[key("mAPAveragedOverIOUs", iou_thresholds=I)] = C.mean(ap[(t, l)] for t in I for l in labels)
        for s in S:
            o[key("mAR", iou_thresholds=I, score_threshold=s)] = C.mean(rec[(t, s, l)] for t in I for l in labels)
        o[key("mARAveragedOverScores", iou_thresholds=I, score_thresholds=S)] = C.mean(rec[(t, s, l)] for t in I for s in S for l in labels)

    # -- confusion matrix side --
    def _classify(self, t, s):
        """per datum: matched [(g, p)], unmatched predictions, unmatched ground truths."""
        for d in self.datums:
            rows = []
            for gi, guid, gl, gb, _ in d["g"]:
                for pi, puid, l, sc, pb, _ in d["p"]:
                    v = iou(gb, pb)
                    if v >= EPS:
                        rows.append((sc, v, gi, pi, gl, l, guid, puid))
            rows.sort(key=lambda r: (-r[0], -r[1]))
            ug, up, pairs = set(), set(), set()
            for r in rows:
                if r[2] not in ug and r[3] not in up:
                    ug.add(r[2])
                    up.add(r[3])
                    pairs.add((r[2], r[3]))
            matched = [r for r in rows if (r[2], r[3]) in pairs and r[1] >= t and r[0] >= s and r[0] > EPS]
            mg, mp = {r[2] for r in matched}, {r[3] for r in matched}
            yield (d, matched,
                   [(p[0], p[1], p[2]) for p in d["p"] if p[0] not in mp and p[3] >= s and p[3] > EPS],
                   [(g[0], g[1], g[2]) for g in d["g"] if g[0] not in mg])

    def _cm(self, P, out, sections):
        for t in P["ious"]:
            for s in P["thr"]:
                par = dict(iou_threshold=t, score_threshold=s)
                z = lambda: {"count": 0, "examples": []}  # noqa: E731
                cm = {g: {p: z() for p in self.labels} for g in self.labels}
                ug = {g: z() for g in self.labels}
                up = {g: z() for g in self.labels}
                for d, matched, ups, ugs in self._classify(t, s):
                    for r in matched:
                        c = cm[r[4]][r[5]]
                        c["count"] += 1
                        c["examples"].append({"datum_id": d["uid"], "ground_truth_id": r[6], "prediction_id": r[7]})
                    for _, uid, l in ups:
                        up[l]["count"] += 1
                        up[l]["examples"].append({"datum_id": d["uid"], "prediction_id": uid})
                    for _, uid, l in ugs:
                        ug[l]["count"] += 1
                        ug[l]["examples"].append({"datum_id": d["uid"], "ground_truth_id": uid})
                    if "ex" in sections:
                        wrong = [r for r in matched if r[4] != r[5]]
                        fps = {(r[3], r[7], r[5]) for r in wrong} | set(ups)
                        fns = {(r[2], r[6], r[4]) for r in wrong} | set(ugs)
                        k = key(f"Examples@{d['uid']}", **par)
                        out["ex"][k] = {
                            "true_positives": sorted(([r[6], r[7]] for r in matched if r[4] == r[5]), key=_j),
                            "false_positives": sorted((x[1] for x in fps), key=_j),
                            "false_negatives": sorted((x[1] for x in fns), key=_j)}
                if "cm" in sections:
                    out["cm"][key("ConfusionMatrix", **par)] = {
                        "confusion_matrix": {g: {p: c["count"] for p, c in x.items()} for g, x in cm.items()},
                        "unmatched_ground_truths": {g: c["count"] for g, c in ug.items()},
                        "unmatched_predictions": {g: c["count"] for g, c in up.items()}}
                if "cmx" in sections:
                    out["cmx"][key("ConfusionMatrixWithExamples", **par)] = {
                        "confusion_matrix": {g: {p: C.sorted_cell(c) for p, c in x.items()} for g, x in cm.items()},
                        "unmatched_ground_truths": {g: C.sorted_cell(c) for g, c in ug.items()},
                        "unmatched_predictions": {g: C.sorted_cell(c) for g, c in up.items()}}

    def report(self, P, sections, datums=None):
        m = self if datums is None else self.filtered({"datums": datums})
        out = {s: {} for s in ("pr", "cm", "ex", "cmx") if s in sections}
        if "info" in sections:
            out["info"] = {"datums": m.n_datums(), "labels": len(m.labels),
                           "gts": sum(len(d["g"]) for d in m.datums),
                           "pds": sum(len({p[0] for p in d["p"]}) for d in m.datums)}
        if "pr" in sections:
            m._pr(P, out["pr"])
        if {"cm", "ex", "cmx"} & set(sections):
            m._cm(P, out, sections)
        return out


def _j(x):
    import json

    return json.dumps(x)


def datums_in_order(model):
    return [(d["id"], d["uid"]) for d in model.datums]
