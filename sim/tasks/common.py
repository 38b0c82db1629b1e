"""Things the three evaluator tasks share: filter expressions, metric maps."""
import json

from sim.util import Invalid, canon

UID_POOL = ["d{}", "img {}", "ü-{}", "a/b/{}", "{}", "x" * 40 + "{}"]
LABEL_POOLS = [
    ["a", "b", "c", "d", "e", "f"],
    ["cat", "dog", "bird", "fish", "cow", "ant"],
    ["0", "1", "2", "10", "-1", "00"],
    ["Label one", "label ONE", "ラベル", "a,b", "", "null"],
]


# ---- filter expressions: JSON -> pyarrow, and JSON -> three-valued model ----
def well_formed(e):
    """A shrunk expression may have lost parts."""
    n = {"in": 3, "==": 3, "!=": 3, ">=": 3, "<": 3, "and": 3, "or": 3, "not": 2}
    if not isinstance(e, list) or not e or len(e) != n.get(e[0]) or (e[0] == "in" and not e[2]):
        raise Invalid("expression")
    if n[e[0]] == 3 and e[0] not in ("and", "or"):
        if not isinstance(e[1], str) or (isinstance(e[2], list) != (e[0] == "in")) or e[2] is None:
            raise Invalid("expression")
    else:
        for x in e[1:]:
            well_formed(x)


def to_pc(e):
    import pyarrow as pa
    import pyarrow.compute as pc

    if e is None:
        return None
    well_formed(e)
    op = e[0]
    if op == "in":
        return pc.field(e[1]).isin(e[2])
    if op == "==":
        return pc.field(e[1]) == e[2]
    if op == "!=":
        return pc.field(e[1]) != e[2]
    if op == ">=":
        return pc.field(e[1]) >= e[2]
    if op == "<":
        return pc.field(e[1]) < e[2]
    if op == "and":
        return to_pc(e[1]) & to_pc(e[2])
    if op == "or":
        return to_pc(e[1]) | to_pc(e[2])
    if op == "not":
        return ~to_pc(e[1])
    raise ValueError(op)


def ev(e, row):
    """Kleene evaluation; returns True, False or None."""
    if e is None:
        return True
    op = e[0]
    if op == "in":
        return row.get(e[1]) in e[2]
    if op in ("==", "!=", ">=", "<"):
        v = row.get(e[1])
        if v is None:
            return None
        return {"==": v == e[2], "!=": v != e[2], ">=": v >= e[2], "<": v < e[2]}[op] if op in ("==", "!=") else (
            v >= e[2] if op == ">=" else v < e[2])
    if op == "not":
        v = ev(e[1], row)
        return None if v is None else not v
    a, b = ev(e[1], row), ev(e[2], row)
    if op == "and":
        if a is False or b is False:
            return False
        return None if a is None or b is None else True
    if op == "or":
        if a is True or b is True:
            return True
        return None if a is None or b is None else False
    raise ValueError(op)


# ---- metric lists -> comparable maps ----
def key(type_, **params):
    return f"{type_} {json.dumps(canon(params), sort_keys=True)}"


def metric_map(metrics, out=None):
    out = {} if out is None else out
    for m in metrics:
        d = m.to_dict()
        k = key(str(d["type"]), **d["parameters"])
        if k in out:
            k += " (again)"
        out[k] = canon(d["value"])
    return out


def flat(result):
    """dict[MetricType, list[Metric]] -> map."""
    out = {}
    for ms in result.values():
        metric_map(ms, out)
    return out


def sorted_cell(cell):
    return {"count": cell["count"], "examples": sorted((canon(x) for x in cell["examples"]), key=lambda x: json.dumps(x, sort_keys=True))}


def cmx_map(metrics):
    out = metric_map(metrics)
    for v in out.values():
        v["confusion_matrix"] = {g: {p: sorted_cell(c) for p, c in r.items()} for g, r in v["confusion_matrix"].items()}
        for k in ("unmatched_ground_truths", "unmatched_predictions"):
            if k in v:
                v[k] = {g: sorted_cell(c) for g, c in v[k].items()}
    return out


def ex_map(metrics):
    """Examples keyed by datum and thresholds; label lists are unordered."""
    out = {}
    for m in metrics:
        d = m.to_dict()
        v = canon(d["value"])
        k = key(f"{d['type']}@{v['datum_id']}", **d["parameters"])
        if k in out:
            k += " (again)"
        out[k] = {n: sorted(v[n], key=lambda x: json.dumps(x)) for n in ("true_positives", "false_positives", "false_negatives")}
    return out


def zdiv(a, b):
    return a / b if b > 0 else 0.0


def f1(p, r):
    return 2 * p * r / (p + r) if (p + r) > 1e-9 else 0.0


def mean(xs):
    xs = list(xs)
    return sum(xs) / len(xs) if xs else 0.0


# ---- generation ----
def gen_fields(rng, fields, meta):
    """Metadata fields; sometimes one whose type has no short name in Arrow."""
    if meta and rng.random() < 0.3:
        return fields + [["x", rng.choice(["instant", "list", "decimal", "date"])]]
    return fields


def meta_values(data, m):
    """The values of a datum's metadata as the caller passes them."""
    if not m:
        return None
    m = dict(m)
    if m.get("x") is not None:
        import datetime
        import decimal

        k, n = dict(data["fields"]).get("x"), m["x"]
        m["x"] = {"instant": lambda: datetime.datetime(2024, 1, 1 + n, tzinfo=datetime.timezone.utc), "list": lambda: [str(n)] * n,
                  "decimal": lambda: decimal.Decimal(n) / 4, "date": lambda: datetime.date(2024, 1, 1 + n)}[k]()
    return m


def gen_meta(rng, has, fields=()):
    if not has or rng.random() < 0.15:
        return None
    m = {}
    if any(f[0] == "x" for f in fields) and rng.random() < 0.8:
        m["x"] = rng.randrange(4)
    if rng.random() < 0.9:
        m["split"] = rng.choice(["train", "test", "val"])
    if rng.random() < 0.9:
        m["w"] = rng.randrange(0, 5)
    return m or None


SCORES = ["grid", "grid", "grid", "ties", "ties", "close", "float", "tiny"]


def gen_score(rng, style):
    if style == "ties":
        return rng.choice([0.3, 0.5, 0.9])
    if style == "close":  # distinct in double precision only
        return rng.choice([0.3, 0.5, 0.9]) + rng.choice([-3, -1, -1, 0, 1, 2, 5]) * rng.choice([1e-5, 1e-7, 1e-9, 1e-10, 1e-12])
    if style == "float":
        return round(rng.random(), 6)
    if style == "tiny":
        return rng.choice([0.0, 1e-10, 5e-9, 2e-9, 1e-8, 1e-6, 0.3, 0.5])
    return rng.choice([0.1, 0.25, 0.3, 0.5, 0.5, 0.75, 0.9, 0.95, 1.0])


def near_thresholds(rng, thr):
    """Now and then, thresholds that differ from scores, or from each other, by very little."""
    if rng.random() < 0.15:
        thr = thr + [thr[0] + rng.choice([-1, 1]) * rng.choice([1e-7, 1e-9, 1e-10, 1e-12])]
    return [t for t in thr if 0 <= t <= 1]


def mix_datum_expr(rng, data, e):
    """Annotation filters may use the datum's fields too."""
    r = rng.random()
    if r < 0.15:
        return gen_datum_expr(rng, data, 2)
    if r < 0.3:
        return [rng.choice(["and", "or"]), gen_datum_expr(rng, data, 2), e]
    return e


META_FIELDS = [["split", "string"], ["w", "int64"]]


def gen_datum_expr(rng, data, depth=0):
    uids = [d["uid"] for d in data["datums"]]
    r = rng.random()
    if depth < 2 and r < 0.2:
        op = rng.choice(["and", "or"])
        return [op, gen_datum_expr(rng, data, depth + 1), gen_datum_expr(rng, data, depth + 1)]
    if depth < 2 and r < 0.3:
        return ["not", gen_datum_expr(rng, data, depth + 1)]
    if data.get("meta") and r < 0.65:
        c = rng.randrange(3)
        if c == 0:
            return [rng.choice(["==", "!="]), "split", rng.choice(["train", "test", "val"])]
        if c == 1:
            return [rng.choice([">=", "<"]), "w", rng.randrange(0, 5)]
        return ["in", "split", rng.sample(["train", "test", "val"], 2)]
    if r < 0.9 or not uids:
        k = rng.randrange(0, len(uids) + 1)
        return ["in", "datum_uid", rng.sample(uids, k) or ["nothing"]]
    return [rng.choice([">=", "<"]), "datum_id", rng.randrange(0, len(uids) + 1)]


def pa_fields(data, as_types):
    if not data.get("meta"):
        return None
    import pyarrow as pa

    conv = {"string": pa.string(), "int64": pa.int64(), "float64": pa.float64(), "bool": pa.bool_(),
            "instant": pa.timestamp("us", tz="UTC"), "list": pa.list_(pa.string()), "decimal": pa.decimal128(9, 2), "date": pa.date32()}
    return [(k, conv[t] if as_types or k == "x" else t) for k, t in data["fields"]]
