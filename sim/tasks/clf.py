"""Classification: workload, adapter and reference model."""
from . import common as C
from .common import ev, f1, key, zdiv

NAME = "clf"
EMPTY = "EmptyCacheError"


def gen(rng, n=None, dense=None, meta=None, big=False):
    pool = rng.choice(C.LABEL_POOLS)
    labels = rng.sample(pool, rng.randint(1, len(pool)))
    if big:
        labels, n = labels[:3], rng.choice([70, 130, 300])
    n = n if n is not None else rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 14])
    dense = dense if dense is not None else rng.random() < 0.5
    meta = meta if meta is not None else rng.random() < 0.5
    fields = C.gen_fields(rng, C.META_FIELDS, meta)
    style = rng.choice(["grid", "grid", "float", "onehot", "ties", "zeros", "close", "tiny"])
    fmt = rng.choice(C.UID_POOL)
    datums = []
    for i in range(n):
        ps = list(labels) if dense else rng.sample(labels, rng.randint(1, len(labels)))
        rng.shuffle(ps)
        s = []
        for j in range(len(ps)):
            if style == "grid":
                s.append(rng.choice([0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.5, 0.75, 0.9, 1.0]))
            elif style == "float":
                s.append(round(rng.random(), 6))
            elif style == "onehot":
                s.append(1.0 if j == 0 else 0.0)
            elif style in ("close", "tiny"):
                s.append(C.gen_score(rng, style))
            elif style == "ties":
                s.append(rng.choice([0.25, 0.5]))
            else:
                s.append(rng.choice([0.0, 0.0, 0.0, 0.5]))
        datums.append({"uid": fmt.format(i), "g": rng.choice(labels), "p": ps, "s": s, "m": C.gen_meta(rng, meta, fields)})
    return {"task": NAME, "meta": meta, "fields": fields, "datums": datums}


def padded(data, n, how):
    """The same data behind n further datums, so that ids are large."""
    d = data["datums"][0]
    return {**data, "datums": [{**d, "uid": f"pad-{i}"} for i in range(n)] + data["datums"]}


def gen_params(rng):
    pool = [0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0, 0.2, 0.45]
    thr = rng.sample(pool, rng.choice([1, 1, 2, 3, 4]))
    thr = C.near_thresholds(rng, thr)
    if rng.random() < 0.3:
        thr.sort()
    return {"thr": thr, "hardmax": [rng.random() < 0.5]}


def gen_filter(rng, data, which=("datums", "gts", "pds")):
    labels = sorted({d["g"] for d in data["datums"]} | {p for d in data["datums"] for p in d["p"]})
    f = {}
    if "datums" in which and rng.random() < 0.6:
        f["datums"] = C.gen_datum_expr(rng, data)
    if "gts" in which and rng.random() < 0.4:
        f["gts"] = ["in", "gt_label", rng.sample(labels, rng.randint(1, len(labels)))]
        f["gts"] = C.mix_datum_expr(rng, data, f["gts"])
    if "pds" in which and rng.random() < 0.4:
        if rng.random() < 0.5:
            f["pds"] = ["in", "pd_label", rng.sample(labels, rng.randint(1, len(labels)))]
        else:
            f["pds"] = [rng.choice([">=", "<"]), "pd_score", rng.choice([0.0, 0.25, 0.3, 0.5, 0.9])]
        f["pds"] = C.mix_datum_expr(rng, data, f["pds"])
        if "gts" not in f and rng.random() < 0.2:
            f["pds"] = ["not", f["pds"]]
    if not f:
        f["datums"] = C.gen_datum_expr(rng, data) if "datums" in which else None
    return f


# ---- adapter to the real code ----
def items(data, lo=0, hi=None):
    from valor_lite.classification import Classification

    return [
        Classification(uid=d["uid"], groundtruth=d["g"], predictions=list(d["p"]), scores=list(d["s"]),
                       metadata=C.meta_values(data, d["m"]))
        for d in data["datums"][lo:hi]
    ]


def loader(data, cfg, path=None, mf=None):
    from valor_lite.classification import Loader

    mf = mf if mf is not None else C.pa_fields(data, cfg.get("types", True))
    if path is None:
        return Loader.in_memory(batch_size=cfg["batch"], metadata_fields=mf)
    return Loader.persistent(path, batch_size=cfg["batch"], rows_per_file=cfg["rows"],
                             compression=cfg.get("comp", "snappy"), metadata_fields=mf)


def add(ld, objs, mode=None):
    ld.add_data(objs)


def finalize(ld, cfg):
    return ld.finalize(batch_size=cfg.get("fin", 1000))


def load(path, override=None):
    from valor_lite.classification import Evaluator

    return Evaluator.load(path, index_to_label_override=override)


def filter_(e, spec, path=None, batch=None):
    return e.filter(datums=C.to_pc(spec.get("datums")), groundtruths=C.to_pc(spec.get("gts")),
                    predictions=C.to_pc(spec.get("pds")), path=path)


def report(e, P, sections, datums=None):
    x = C.to_pc(datums)
    out = {}
    if "info" in sections:
        i = e.get_info(datums=x)
        out["info"] = {"datums": i.number_of_datums, "labels": i.number_of_labels}
        if datums is None:
            out["info"]["rows"] = i.number_of_rows
    for hm in P["hardmax"]:
        kw = dict(score_thresholds=list(P["thr"]), hardmax=hm, datums=x)
        if "pr" in sections:
            out.setdefault("pr", {}).update(C.flat(e.compute_precision_recall(**kw)))
        if "cm" in sections:
            out.setdefault("cm", {}).update(C.metric_map(e.compute_confusion_matrix(**kw)))
        if "ex" in sections:
            out.setdefault("ex", {}).update(C.ex_map(e.compute_examples(**kw)))
        if "cmx" in sections:
            out.setdefault("cmx", {}).update(C.cmx_map(e.compute_confusion_matrix_with_examples(**kw)))
    if "roc" in sections and datums is None:
        out["roc"] = C.flat(e.compute_rocauc())
    return out


def examples_page(e, P, datums, limit, offset):
    return C.ex_map(e.compute_examples(score_thresholds=list(P["thr"]), hardmax=P["hardmax"][0],
                                       datums=C.to_pc(datums), limit=limit, offset=offset))


# ---- reference model ----
class Model:
    def __init__(self, data):
        self.labels = []
        self.rows = []
        seen = set()
        for i, d in enumerate(data["datums"]):
            for l in [d["g"], *d["p"]]:
                if l not in seen:
                    seen.add(l)
                    self.labels.append(l)
            win = max(range(len(d["s"])), key=lambda j: (d["s"][j], -j))
            for j, (p, s) in enumerate(zip(d["p"], d["s"])):
                self.rows.append({**(d["m"] or {}), "datum_uid": d["uid"], "datum_id": i, "gt_label": d["g"],
                                  "pd_label": p, "pd_score": s, "win": j == win})

    def filtered(self, spec):
        rows = [r for r in self.rows if ev(spec.get("datums"), r) is True]
        vg = {(r["datum_id"], r["gt_label"]) for r in rows if ev(spec.get("gts"), r) is True}
        vp = {(r["datum_id"], r["pd_label"]) for r in rows if ev(spec.get("pds"), r) is True}
        m = Model.__new__(Model)
        m.labels = self.labels
        m.rows = [r for r in rows if (r["datum_id"], r["gt_label"]) in vg and (r["datum_id"], r["pd_label"]) in vp]
        return m

    @property
    def empty(self):
        return not self.rows

    @property
    def dense(self):
        n = {}
        for r in self.rows:
            n.setdefault(r["datum_id"], set()).add(r["pd_label"])
        return all(len(v) == len(self.labels) for v in n.values())

    def n_datums(self):
        return len({r["datum_id"] for r in self.rows})

    def report(self, P, sections, datums=None):
        m = self if datums is None else self.filtered({"datums": datums})
        rows, labels = m.rows, m.labels
        out = {}
        if "info" in sections:
            out["info"] = {"datums": m.n_datums(), "labels": len(labels)}
            if datums is None:
                out["info"]["rows"] = len(rows)
        for hm in P["hardmax"]:
            for t in P["thr"]:
                par = {"score_threshold": t, "hardmax": hm}
                pos = [r["pd_score"] > 1e-9 and r["pd_score"] >= t and (r["win"] or not hm) for r in rows]
                match = [r["gt_label"] == r["pd_label"] for r in rows]
                if "pr" in sections:
                    o = out.setdefault("pr", {})
                    tp = {l: 0 for l in labels}
                    fp = dict(tp)
                    fn, tn = set(), set()
                    for r, po, ma in zip(rows, pos, match):
                        if po and ma:
                            tp[r["pd_label"]] += 1
                        elif po:
                            fp[r["pd_label"]] += 1
                        if (ma and not po) or (po and not ma):
                            fn.add((r["datum_id"], r["gt_label"]))
                        if not ma and not po:
                            tn.add((r["datum_id"], r["pd_label"]))
                    o[key("Accuracy", **par)] = zdiv(sum(tp.values()), m.n_datums())
                    for l in labels:
                        nfn = sum(1 for x in fn if x[1] == l)
                        ntn = sum(1 for x in tn if x[1] == l)
                        o[key("Counts", label=l, **par)] = {"tp": tp[l], "fp": fp[l], "fn": nfn, "tn": ntn}
                        p, rc = zdiv(tp[l], tp[l] + fp[l]), zdiv(tp[l], tp[l] + nfn)
                        o[key("Precision", label=l, **par)] = p
                        o[key("Recall", label=l, **par)] = rc
                        o[key("F1", label=l, **par)] = f1(p, rc)
                cells, unm, per = {}, set(), {}
                matched_gt = {(r["datum_id"], r["gt_label"]) for r, po in zip(rows, pos) if po}
                for r, po in zip(rows, pos):
                    d = r["datum_id"]
                    pd = per.setdefault(d, {"uid": r["datum_uid"], "tp": set(), "fp": set(), "fn": set()})
                    if po:
                        cells[(d, r["gt_label"], r["pd_label"])] = r
                        if r["gt_label"] == r["pd_label"]:
                            pd["tp"].add(r["gt_label"])
                        else:
                            pd["fp"].add(r["pd_label"])
                            pd["fn"].add(r["gt_label"])
                    if (d, r["gt_label"]) not in matched_gt:
                        unm.add((d, r["gt_label"], r["datum_uid"]))
                        pd["fn"].add(r["gt_label"])
                if "cm" in sections:
                    cm = {g: {p: 0 for p in labels} for g in labels}
                    for (_, g, p) in cells:
                        cm[g][p] += 1
                    ug = {g: sum(1 for u in unm if u[1] == g) for g in labels}
                    out.setdefault("cm", {})[key("ConfusionMatrix", **par)] = {"confusion_matrix": cm, "unmatched_ground_truths": ug}
                if "cmx" in sections:
                    cm = {g: {p: {"count": 0, "examples": []} for p in labels} for g in labels}
                    for (d, g, p), r in cells.items():
                        cm[g][p]["count"] += 1
                        cm[g][p]["examples"].append({"datum_id": r["datum_uid"], "score": r["pd_score"]})
                    ug = {g: {"count": 0, "examples": []} for g in labels}
                    for d, g, uid in unm:
                        ug[g]["count"] += 1
                        ug[g]["examples"].append({"datum_id": uid})
                    out.setdefault("cmx", {})[key("ConfusionMatrixWithExamples", **par)] = {
                        "confusion_matrix": {g: {p: C.sorted_cell(c) for p, c in x.items()} for g, x in cm.items()},
                        "unmatched_ground_truths": {g: C.sorted_cell(c) for g, c in ug.items()}}
                if "ex" in sections:
                    o = out.setdefault("ex", {})
                    for d, v in per.items():
                        o[key(f"Examples@{v['uid']}", **par)] = {
                            "true_positives": sorted(v["tp"], key=_j), "false_positives": sorted(v["fp"] - v["tp"], key=_j),
                            "false_negatives": sorted(v["fn"] - v["tp"], key=_j)}
        if "roc" in sections and datums is None:
            out["roc"] = self.roc()
        for s in ("pr", "cm", "ex", "cmx"):
            if s in sections:
                out.setdefault(s, {})
        return out

    def roc(self):
        """Area under the ROC curve per label; only meaningful for dense predictions."""
        out, vals = {}, []
        gts = {(r["datum_id"], r["gt_label"]) for r in self.rows}
        for l in self.labels:
            rs = [r for r in self.rows if r["pd_label"] == l]
            pos = sum(1 for g in gts if g[1] == l)
            neg = len(rs) - pos
            area = 0.0
            tp = fp = 0
            if pos > 0 and neg > 0:
                for s in sorted({r["pd_score"] for r in rs}, reverse=True):
                    dt = sum(1 for r in rs if r["pd_score"] == s and r["gt_label"] == l)
                    df = sum(1 for r in rs if r["pd_score"] == s and r["gt_label"] != l)
                    area += (df / neg) * ((tp + tp + dt) / 2 / pos)
                    tp += dt
                    fp += df
            vals.append(area)
            out[key("ROCAUC", label=l)] = area
        out[key("mROCAUC")] = C.mean(vals)
        return out


def _j(x):
    import json

    return json.dumps(x)


def datums_in_order(model):
    """(datum id, uid) of datums that own rows, in ingestion order."""
    seen = {}
    for r in model.rows:
        seen.setdefault(r["datum_id"], r["datum_uid"])
    return sorted(seen.items())
