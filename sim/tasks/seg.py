"""Semantic segmentation: workload, adapter and reference model."""
import warnings

from . import common as C
from .common import ev, key, zdiv

NAME = "seg"
EMPTY = "EmptyCacheError"
FIELDS = C.META_FIELDS + [["gm", "string"], ["pm", "int64"]]


def gen(rng, n=None, dense=None, meta=None, big=False):
    pool = rng.choice(C.LABEL_POOLS)
    labels = rng.sample(pool, rng.randint(1, min(5, len(pool))))
    n = n if n is not None else rng.choice([1, 1, 2, 3, 4, 6, 9])
    meta = meta if meta is not None else rng.random() < 0.5
    fields = C.gen_fields(rng, FIELDS, meta)
    overlap = rng.random() < 0.4
    repeat = rng.random() < 0.3
    share = rng.random() < 0.25  # equal masks are one array
    fmt = rng.choice(C.UID_POOL)
    datums, seen = [], []
    same_shape = rng.random() < 0.5
    shape = [rng.randint(1, 6), rng.randint(1, 6)]
    if big:
        n, same_shape, shape = rng.choice([1, 2, 3]), True, rng.choice([[20, 20], [260, 260], [70000, 1], [400, 300]])
    for i in range(n):
        if not same_shape:
            shape = [rng.randint(1, 6), rng.randint(1, 6)]
        size = shape[0] * shape[1]
        sides = []
        for side in range(2):
            k = rng.randint(0, len(labels))
            ls = [rng.choice(labels) for _ in range(k)] if repeat else rng.sample(labels, k)
            masks = []
            if big:
                for q in range(len(ls)):
                    a, b = (0, shape[0]) if rng.random() < 0.3 else sorted(rng.randint(0, shape[0]) for _ in "ab")
                    c, e = (0, shape[1]) if rng.random() < 0.3 else sorted(rng.randint(0, shape[1]) for _ in "ab")
                    masks.append(["rect", a, b, c, e])
            elif overlap or share:
                for _ in ls:
                    old = [px for s, px in seen if s == shape]
                    if share and old and rng.random() < 0.5:
                        masks.append(list(rng.choice(old)))
                        continue
                    dens = rng.choice([0.1, 0.3, 0.5, 0.9])
                    masks.append([j for j in range(size) if rng.random() < dens])
            else:
                owner = [rng.randint(-1, len(ls) - 1) if ls else -1 for _ in range(size)]
                masks = [[j for j in range(size) if owner[j] == q] for q in range(len(ls))]
            seen += [(shape, px) for px in masks]
            meta_of = {l: (rng.choice([None, "x", "y"]) if side == 0 else rng.choice([None, 0, 1, 2])) if meta else None for l in labels}
            sides.append([{"l": l, "px": px, "m": meta_of[l]} for l, px in zip(ls, masks)])
        datums.append({"uid": fmt.format(i), "shape": list(shape), "gts": sides[0], "pds": sides[1], "m": C.gen_meta(rng, meta, fields)})
    if not any(d["gts"] or d["pds"] for d in datums):
        datums[0]["gts"].append({"l": labels[0], "px": [0], "m": None})
    return {"task": NAME, "meta": meta, "fields": fields, "datums": datums, "share": share, "order": rng.choice(["C", "C", "F", "view"])}


def gen_huge(rng):
    """More pixels than a 32 bit float counts exactly."""
    a, b = rng.choice([(4101, 4099), (16777259, 1), (4099, 8193)])
    cut = lambda n: rng.choice([0, 1, 3])  # noqa: E731
    labels = rng.sample(rng.choice(C.LABEL_POOLS), 2)
    x, y = cut(a), cut(a)
    sides = [[["rect", x, a, 0, b]], [["rect", y, a, 0, b]]]
    if rng.random() < 0.5:  # or most of it is background
        sides = [[["rect", 0, 1 + x, 0, 1]], [["rect", 0, 2, 0, b]]]
    if rng.random() < 0.5:
        sides[rng.randrange(2)].insert(0, ["rect", 0, rng.randint(1, 3), 0, 1])
    gts, pds = ([{"l": l, "px": px, "m": None} for l, px in zip(labels, s[::rng.choice([1, -1])])] for s in sides)
    return {"task": NAME, "meta": False, "fields": FIELDS, "datums": [{"uid": "d", "shape": [a, b], "gts": gts, "pds": pds, "m": None}], "share": False}


def gen_params(rng):
    return {}


def gen_filter(rng, data, which=("datums", "gts", "pds")):
    labels = sorted({a["l"] for d in data["datums"] for a in d["gts"] + d["pds"]})
    f = {}
    if "datums" in which and rng.random() < 0.5:
        f["datums"] = C.gen_datum_expr(rng, data)
    for side, lab, mf, vals in (("gts", "gt_label", "gm", ["x", "y"]), ("pds", "pd_label", "pm", [0, 1, 2])):
        if side in which and rng.random() < 0.5:
            f[side] = ["in", lab, rng.sample(labels, rng.randint(1, len(labels)))]
            f[side] = C.mix_datum_expr(rng, data, f[side])
            if data["meta"] and rng.random() < 0.4:
                f[side] = ["in", mf, rng.sample(vals, rng.randint(1, len(vals)))]
    if not f:
        f["datums"] = C.gen_datum_expr(rng, data) if "datums" in which else None
    return f


# ---- adapter to the real code ----
def items(data, lo=0, hi=None, keep=None):
    import numpy as np
    from valor_lite.semantic_segmentation import Bitmask, Segmentation

    arrays = {}

    def arranged(m):
        order = data.get("order")
        if order == "F":
            return np.asfortranarray(m)
        if order == "view":  # every other column of a larger array
            v = np.ones((m.shape[0], 2 * m.shape[1]), dtype=np.bool_)[:, ::2]
            v[:] = m
            return v
        return m

    def mask(px, shape):
        if not data.get("share"):
            m = arranged(make(px, shape))
            if keep is not None:
                keep.append((m, m.copy()))
            return m
        k = (tuple(px), tuple(shape))
        if k not in arrays:
            arrays[k] = arranged(make(px, shape))
            if keep is not None:
                keep.append((arrays[k], arrays[k].copy()))
        return arrays[k]

    def make(px, shape):
        if px[:1] == ["rect"]:
            m = np.zeros(shape, dtype=np.bool_)
            m[px[1]:px[2], px[3]:px[4]] = True
            return m
        m = np.zeros(shape[0] * shape[1], dtype=np.bool_)
        m[px] = True
        return m.reshape(shape)

    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for d in data["datums"][lo:hi]:
            out.append(Segmentation(
                uid=d["uid"],
                groundtruths=[Bitmask(mask=mask(a["px"], d["shape"]), label=a["l"], metadata={"gm": a["m"]} if a["m"] is not None else None) for a in d["gts"]],
                predictions=[Bitmask(mask=mask(a["px"], d["shape"]), label=a["l"], metadata={"pm": a["m"]} if a["m"] is not None else None) for a in d["pds"]],
                shape=tuple(d["shape"]), metadata=C.meta_values(data, d["m"])))
    return out


def loader(data, cfg, path=None, mf=None):
    from valor_lite.semantic_segmentation import Loader

    mf = mf if mf is not None else C.pa_fields(data, cfg.get("types", True))
    if path is None:
        return Loader.in_memory(batch_size=cfg["batch"], metadata_fields=mf)
    return Loader.persistent(path, batch_size=cfg["batch"], rows_per_file=cfg["rows"],
                             compression=cfg.get("comp", "snappy"), metadata_fields=mf)


def add(ld, objs, mode=None):
    ld.add_data(objs)


def finalize(ld, cfg):
    return ld.finalize()


def load(path, override=None):
    from valor_lite.semantic_segmentation import Evaluator

    return Evaluator.load(path, index_to_label_override=override)


def filter_(e, spec, path=None, batch=None):
    return e.filter(datums=C.to_pc(spec.get("datums")), groundtruths=C.to_pc(spec.get("gts")),
                    predictions=C.to_pc(spec.get("pds")), path=path)


def counts(e, spec):
    i = e.get_info(datums=C.to_pc(spec.get("datums")), groundtruths=C.to_pc(spec.get("gts")), predictions=C.to_pc(spec.get("pds")))
    return {"datums": i.number_of_datums, "labels": i.number_of_labels, "pixels": i.number_of_pixels,
            "gt_pixels": i.number_of_groundtruth_pixels, "pd_pixels": i.number_of_prediction_pixels}


def report(e, P, sections, datums=None):
    x = C.to_pc(datums)
    out = {}
    if "info" in sections:
        i = e.get_info(datums=x)
        out["info"] = {"datums": i.number_of_datums, "labels": i.number_of_labels, "pixels": i.number_of_pixels,
                       "gt_pixels": i.number_of_groundtruth_pixels, "pd_pixels": i.number_of_prediction_pixels}
    if "pr" in sections or "cm" in sections:
        r = C.flat(e.compute_precision_recall_iou(datums=x))
        if "pr" in sections:
            out["pr"] = {k: v for k, v in r.items() if not k.startswith("ConfusionMatrix")}
        if "cm" in sections:
            out["cm"] = {k: v for k, v in r.items() if k.startswith("ConfusionMatrix")}
    return out


# ---- reference model ----
def _owners(d):
    """How many pixels have which label on each side; the first mask that holds a pixel owns it."""
    out = {}
    anns = d["gts"] + d["pds"]
    if all(a["px"][:1] == ["rect"] for a in anns):  # cells between the edges of rectangles
        xs = sorted({0, d["shape"][0], *(v for a in anns for v in a["px"][1:3])})
        ys = sorted({0, d["shape"][1], *(v for a in anns for v in a["px"][3:5])})
        own = lambda side, x, y: next((a["l"] for a in d[side] if a["px"][1] <= x < a["px"][2] and a["px"][3] <= y < a["px"][4]), None)  # noqa: E731
        for x, x2 in zip(xs, xs[1:]):
            for y, y2 in zip(ys, ys[1:]):
                k = own("gts", x, y), own("pds", x, y)
                out[k] = out.get(k, 0) + (x2 - x) * (y2 - y)
        return out
    sides = []
    for side in ("gts", "pds"):
        o = [None] * (d["shape"][0] * d["shape"][1])
        for a in d[side]:
            for j in a["px"]:
                if o[j] is None:
                    o[j] = a["l"]
        sides.append(o)
    for k in zip(*sides):
        out[k] = out.get(k, 0) + 1
    return out


class Model:
    def __init__(self, data):
        self.labels = []
        self.datums = []
        seen = set()
        for i, d in enumerate(data["datums"]):
            for a in d["gts"] + d["pds"]:
                if a["l"] not in seen:
                    seen.add(a["l"])
                    self.labels.append(a["l"])
            self.datums.append({"id": i, "uid": d["uid"], "m": d["m"] or {}, "n": _owners(d),
                                "gm": {a["l"]: a["m"] for a in d["gts"]}, "pm": {a["l"]: a["m"] for a in d["pds"]}})

    def filtered(self, spec):
        m = Model.__new__(Model)
        m.labels = self.labels
        m.datums = []
        for d in self.datums:
            base = {**d["m"], "datum_uid": d["uid"], "datum_id": d["id"]}
            if ev(spec.get("datums"), base) is not True:
                continue
            n = {}
            for (g, p), v in d["n"].items():
                if g is not None and ev(spec.get("gts"), {**base, "gt_label": g, "gm": d["gm"].get(g)}) is not True:
                    g = None
                if p is not None and ev(spec.get("pds"), {**base, "pd_label": p, "pm": d["pm"].get(p)}) is not True:
                    p = None
                n[(g, p)] = n.get((g, p), 0) + v
            m.datums.append({**d, "n": n})
        return m

    def counts(self, spec):
        i = lambda *keys: self.filtered({k: spec.get(k) for k in keys}).report({}, ["info"])["info"]  # noqa: E731
        return {**i("datums"), "gt_pixels": i("datums", "gts")["gt_pixels"], "pd_pixels": i("datums", "pds")["pd_pixels"]}

    @property
    def empty(self):
        return not self.datums

    def n_datums(self):
        return len(self.datums)

    def report(self, P, sections, datums=None):
        m = self if datums is None else self.filtered({"datums": datums})
        labels = m.labels
        conf = {}
        for d in m.datums:
            for k, v in d["n"].items():
                conf[k] = conf.get(k, 0) + v
        total = sum(conf.values())
        gc = {l: sum(v for (g, p), v in conf.items() if g == l) for l in labels}
        pc_ = {l: sum(v for (g, p), v in conf.items() if p == l) for l in labels}
        out = {}
        if "info" in sections:
            out["info"] = {"datums": m.n_datums(), "labels": len(labels), "pixels": total,
                           "gt_pixels": sum(gc.values()), "pd_pixels": sum(pc_.values())}

        def iou(g, p):
            i = conf.get((g, p), 0)
            return zdiv(i, gc[g] + pc_[p] - i)

        if "pr" in sections:
            o = out["pr"] = {}
            right = sum(conf.get((l, l), 0) for l in labels) + conf.get((None, None), 0)
            o[key("Accuracy")] = zdiv(right, total)
            o[key("mIOU")] = C.mean(iou(l, l) for l in labels)
            for l in labels:
                tp = conf.get((l, l), 0)
                p, r = zdiv(tp, pc_[l]), zdiv(tp, gc[l])
                o[key("Precision", label=l)] = p
                o[key("Recall", label=l)] = r
                o[key("F1", label=l)] = 2 * p * r / (p + r) if p + r > 0 else 0.0
                o[key("IOU", label=l)] = iou(l, l)
        if "cm" in sections:
            out["cm"] = {key("ConfusionMatrix"): {
                "confusion_matrix": {g: {p: {"iou": iou(g, p)} for p in labels} for g in labels},
                "unmatched_predictions": {p: {"ratio": zdiv(conf.get((None, p), 0), pc_[p])} for p in labels},
                "unmatched_ground_truths": {g: {"ratio": zdiv(conf.get((g, None), 0), gc[g])} for g in labels}}}
        return out


def datums_in_order(model):
    return [(d["id"], d["uid"]) for d in model.datums]
